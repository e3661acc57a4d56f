fn cyclus::ResTracker::ResTracker
  set this.parent1_(0) IF T
  set this.parent2_(0) IF T
  set this.tracked_(true) IF T
  set this.package_name_("") IF T
  set this.res_($1) IF T
  set this.ctx_($0) IF T
fn cyclus::ResTracker::DontTrack
  set this.tracked_(false) IF T
fn cyclus::ResTracker::Create
  set this.parent1_(0) IF this.tracked_
  set this.parent2_(0) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ResourceId", this.res_.state_id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ObjId", this.res_.obj_id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Type", this.res_.type()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("TimeCreated", this.ctx_.ti_.time_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Quantity", this.res_.quantity()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Units", this.res_.units()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("QualId", this.res_.qual_id()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("PackageName", this.res_.package_name()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent1", 0) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent2", 0) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::Record() IF this.tracked_
  call this.res_.cyclus::Resource::Record(this.ctx_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("ResCreators").cyclus::Datum::AddVal("ResourceId", this.res_.state_id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("ResCreators").cyclus::Datum::AddVal("AgentId", $0.id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("ResCreators").cyclus::Datum::Record() IF this.tracked_
fn cyclus::ResTracker::Modify
  set this.parent1_(this.res_.state_id_) IF this.tracked_
  set this.parent2_(0) IF this.tracked_
  call this.res_.cyclus::Resource::BumpStateId() IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ResourceId", this.res_.state_id_') IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ObjId", this.res_.obj_id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Type", this.res_.type()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("TimeCreated", this.ctx_.ti_.time_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Quantity", this.res_.quantity()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Units", this.res_.units()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("QualId", this.res_.qual_id()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("PackageName", this.res_.package_name()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent1", this.res_.state_id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent2", 0) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::Record() IF this.tracked_
  call this.res_.cyclus::Resource::Record(this.ctx_) IF this.tracked_
  seq 2<14
fn cyclus::ResTracker::Extract
  set $0.tracked_(this.tracked_) IF T
  set this.parent1_(this.res_.state_id_) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  set this.parent2_(0) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  set $0.parent1_(this.res_.state_id_) IF this.tracked_
  set $0.parent2_(0) IF this.tracked_
  call $0.res_.cyclus::Resource::BumpStateId() IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ResourceId", $0.res_.state_id_') IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ObjId", $0.res_.obj_id_) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Type", $0.res_.type()) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("TimeCreated", $0.ctx_.ti_.time_) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Quantity", $0.res_.quantity()) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Units", $0.res_.units()) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("QualId", $0.res_.qual_id()) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("PackageName", $0.res_.package_name()) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent1", this.res_.state_id_) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent2", 0) IF this.tracked_
  call $0.ctx_.rec_.NewDatum("Resources").cyclus::Datum::Record() IF this.tracked_
  call $0.res_.cyclus::Resource::Record($0.ctx_) IF this.tracked_
  call this.res_.cyclus::Resource::BumpStateId() IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ResourceId", this.res_.state_id_') IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ObjId", this.res_.obj_id_) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Type", this.res_.type()) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("TimeCreated", this.ctx_.ti_.time_) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Quantity", this.res_.quantity()) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Units", this.res_.units()) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("QualId", this.res_.qual_id()) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("PackageName", this.res_.package_name()) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent1", this.res_.state_id_) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent2", 0) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::Record() IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  call this.res_.cyclus::Resource::Record(this.ctx_) IF !(cyclus::cy_eps_rsrc-this.res_.quantity()) >= 0 & this.tracked_
  seq 5<17 18<30
fn cyclus::ResTracker::Absorb
  set this.parent1_(this.res_.state_id_) IF this.tracked_
  set this.parent2_($0.res_.state_id_) IF this.tracked_
  call this.res_.cyclus::Resource::BumpStateId() IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ResourceId", this.res_.state_id_') IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ObjId", this.res_.obj_id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Type", this.res_.type()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("TimeCreated", this.ctx_.ti_.time_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Quantity", this.res_.quantity()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Units", this.res_.units()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("QualId", this.res_.qual_id()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("PackageName", this.res_.package_name()) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent1", this.res_.state_id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent2", $0.res_.state_id_) IF this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::Record() IF this.tracked_
  call this.res_.cyclus::Resource::Record(this.ctx_) IF this.tracked_
  seq 2<14
fn cyclus::ResTracker::Package
  default 0 = NULL
  set this.tracked_($0.tracked_) IF $0
  set this.parent2_(0) IF !$0 & this.tracked_ | $0 & $0.tracked_
  set this.package_name_(this.res_.package_name()) IF !$0 & this.tracked_ | $0 & $0.tracked_
  set this.parent1_($0.res_.state_id_) IF $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ObjId", this.res_.obj_id_) IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Type", this.res_.type()) IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("TimeCreated", this.ctx_.ti_.time_) IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Quantity", this.res_.quantity()) IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Units", this.res_.units()) IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("QualId", this.res_.qual_id()) IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("PackageName", this.res_.package_name()) IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent1", $0.res_.state_id_) IF $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent2", 0) IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::Record() IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.res_.cyclus::Resource::Record(this.ctx_) IF !$0 & this.tracked_ | $0 & $0.tracked_
  set this.parent1_(this.res_.state_id_) IF !$0 & this.tracked_
  call this.res_.cyclus::Resource::BumpStateId() IF !$0 & this.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ResourceId", this.res_.state_id_') IF !$0 & this.tracked_ | $0 & $0.tracked_
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent1", this.res_.state_id_) IF !$0 & this.tracked_
  seq 16<14
fn cyclus::ResTracker::Record
  default 0 = true
  call this.res_.cyclus::Resource::BumpStateId() IF $0
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ResourceId", this.res_.state_id_') IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("ObjId", this.res_.obj_id_) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Type", this.res_.type()) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("TimeCreated", this.ctx_.ti_.time_) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Quantity", this.res_.quantity()) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Units", this.res_.units()) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("QualId", this.res_.qual_id()) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("PackageName", this.res_.package_name()) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent1", this.parent1_) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::AddVal("Parent2", this.parent2_) IF T
  call this.ctx_.rec_.NewDatum("Resources").cyclus::Datum::Record() IF T
  call this.res_.cyclus::Resource::Record(this.ctx_) IF T
  seq 0<12
