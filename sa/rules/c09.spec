fn cyclus::Agent::Agent | cyclus::Context *
  set this.kind_("Agent") IF T
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
fn cyclus::Agent::Agent | const cyclus::Agent &
  set this.kind_("") IF T
  set this.children_(set{}) IF T
  set this.prototype_("") IF T
  set this.spec_("") IF T
fn cyclus::Resource::BumpStateId
  set this.state_id_(cyclus::Resource::nextstate_id_) IF T
  set cyclus::Resource::nextstate_id_((cyclus::Resource::nextstate_id_+1)) IF T
fn cyclus::Resource::Resource
  set cyclus::Resource::nextstate_id_((cyclus::Resource::nextstate_id_+1)) IF T
  set this.state_id_(cyclus::Resource::nextstate_id_) IF T
  set cyclus::Resource::nextobj_id_((cyclus::Resource::nextobj_id_+1)) IF T
  set this.obj_id_(cyclus::Resource::nextobj_id_) IF T
fn cyclus::Resource::obj_id
  ret return(this.obj_id_) IF T
fn cyclus::Resource::state_id | const
  ret return(this.state_id_) IF T
fn cyclus::Resource::state_id | int
  set this.state_id_($0) IF T
fn cyclus::Composition::id
  ret return(this.id_) IF T
fn cyclus::Composition::Composition | 
  set this.recorded_(false) IF T
  set this.atom_(map{}) IF T
  set this.mass_(map{}) IF T
  set this.prev_decay_(0) IF T
  set this.id_(cyclus::Composition::next_id_) IF T
  set cyclus::Composition::next_id_((cyclus::Composition::next_id_+1)) IF T
  set this.decay_line_(new map{}) IF T
fn cyclus::Composition::Composition | int; boost::shared_ptr<std::map<int, boost::shared_ptr<cyclus::Composition>>>
  set this.decay_line_($1) IF T
  set this.recorded_(false) IF T
  set this.atom_(map{}) IF T
  set this.mass_(map{}) IF T
  set this.prev_decay_($0) IF T
  set this.id_(cyclus::Composition::next_id_) IF T
  set cyclus::Composition::next_id_((cyclus::Composition::next_id_+1)) IF T
fn cyclus::Product::Create
  default 3 = cyclus::Package::unpackaged_name_
  set cyclus::Product::next_qualid_((cyclus::Product::next_qualid_+1)) IF !has(cyclus::Product::qualids_,$2)
  put cyclus::Product::qualids_.put($2, cyclus::Product::next_qualid_) IF !has(cyclus::Product::qualids_,$2)
  call $0.ctx_.rec_.NewDatum("Products").cyclus::Datum::AddVal("QualId", cyclus::Product::next_qualid_) IF !has(cyclus::Product::qualids_,$2)
  call $0.ctx_.rec_.NewDatum("Products").cyclus::Datum::AddVal("Quality", $2) IF !has(cyclus::Product::qualids_,$2)
  call $0.ctx_.rec_.NewDatum("Products").cyclus::Datum::Record() IF !has(cyclus::Product::qualids_,$2)
  call new Product{$0.ctx_,$1,$2,$3}.tracker_.cyclus::ResTracker::Create($0) IF T
  ret return(new Product{$0.ctx_,$1,$2,$3}) IF T
  seq 1<5
fn cyclus::Product::qual_id
  ret return(cyclus::Product::qualids_[this.quality_]) IF T
fn cyclus::Context::Context
  set this.rec_ver_(set{}) IF T
  set this.protos_(map{}) IF T
  set this.recipes_(map{}) IF T
  set this.packages_(map{}) IF T
  set this.transport_units_(map{}) IF T
  set this.agent_list_(set{}) IF T
  set this.traders_(set{}) IF T
  set this.n_prototypes_(map{}) IF T
  set this.n_specs_(map{}) IF T
  set this.si_(0) IF T
  set this.ti_($0) IF T
  set this.solver_(NULL) IF T
  set this.rec_($1) IF T
  set this.trans_id_(0) IF T
  set this.rng_(new RandomNumberGenerator{}) IF T
fn cyclus::Context::NextTransactionID
  set this.trans_id_((this.trans_id_+1)) IF T
  ret return(this.trans_id_) IF T
fn cyclus::CapacityConstraint<cyclus::Material>::CapacityConstraint | double; boost::shared_ptr<cyclus::Converter<cyclus::Material>>
  set this.capacity_($0) IF T
  set this.converter_($1) IF T
  set cyclus::CapacityConstraint<cyclus::Material>::next_id_((cyclus::CapacityConstraint<cyclus::Material>::next_id_+1)) IF T
  set this.id_(cyclus::CapacityConstraint<cyclus::Material>::next_id_) IF T
  throw cyclus::ValueError() IF !$0 > 0
fn cyclus::CapacityConstraint<cyclus::Material>::CapacityConstraint | double
  set this.capacity_($0) IF T
  set cyclus::CapacityConstraint<cyclus::Material>::next_id_((cyclus::CapacityConstraint<cyclus::Material>::next_id_+1)) IF T
  set this.id_(cyclus::CapacityConstraint<cyclus::Material>::next_id_) IF T
  throw cyclus::ValueError() IF !$0 > 0
  set this.converter_(new TrivialConverter{}) IF T
fn cyclus::CapacityConstraint<cyclus::Material>::CapacityConstraint | const cyclus::CapacityConstraint<cyclus::Material> &
  set this.capacity_($0.capacity_) IF T
  set this.converter_($0.converter_) IF T
  set cyclus::CapacityConstraint<cyclus::Material>::next_id_((cyclus::CapacityConstraint<cyclus::Material>::next_id_+1)) IF T
  set this.id_(cyclus::CapacityConstraint<cyclus::Material>::next_id_) IF T
fn cyclus::CapacityConstraint<cyclus::Material>::id | const
  ret return(this.id_) IF T
fn cyclus::SimInit::Snapshot
  call $0.rec_.NewDatum("Snapshots").cyclus::Datum::AddVal("Time", $0.ti_.time_) IF T
  call $0.rec_.NewDatum("Snapshots").cyclus::Datum::Record() IF T
  [for $0.agent_list_] call elem($0.agent_list_).cyclus::Agent::Snapshot(DbInit{elem($0.agent_list_),true}) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] call elem($0.agent_list_).cyclus::Agent::Snapshot(DbInit{elem($0.agent_list_)}) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] call elem($0.agent_list_).cyclus::Agent::SnapshotInv() IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("AgentId", elem($0.agent_list_).id_) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("SimTime", elem($0.agent_list_).ctx_.ti_.time_) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("InventoryName", elem(elem($0.agent_list_).SnapshotInv()).first) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("ResourceId", elem(elem(elem($0.agent_list_).SnapshotInv()).second).state_id_) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::Record() IF !elem($0.agent_list_).enter_time_ == -1
  * call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Time", $0.ti_.time_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "Agent") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Agent::next_id_) IF T
  * call $0.rec_.NewDatum("NextIds").cyclus::Datum::Record() IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "Transaction") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", $0.trans_id_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "Composition") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Composition::next_id_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "ResourceState") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Resource::nextstate_id_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "ResourceObj") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Resource::nextobj_id_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "Product") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Product::next_qualid_) IF T
fn cyclus::SimInit::LoadNextIds
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Agent::next_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set this.ctx_.trans_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Composition::next_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Resource::nextstate_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceState" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Resource::nextobj_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceObj" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceState" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Product::next_qualid_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Product" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceObj" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceState" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] throw cyclus::IOError() IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Product" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceObj" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceState" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
init cyclus::Agent::next_id_ = 0
init cyclus::CapacityConstraint<cyclus::Material>::next_id_ = 0
init cyclus::CapacityConstraint<cyclus::Product>::next_id_ = 0
init cyclus::Composition::next_id_ = 1
init cyclus::Product::next_qualid_ = 1
init cyclus::Resource::nextobj_id_ = 1
init cyclus::Resource::nextstate_id_ = 1
