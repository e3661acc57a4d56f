fn cyclus::Agent::InitFrom | cyclus::Agent *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
fn cyclus::Agent::InformErrorMsg
  ret return("A(n) " ++ this.spec_ ++ " named " ++ this.prototype_ ++ " at time " ++ this.ctx_.ti_.time_ ++ " received the following error:\n" ++ $0) IF T
fn cyclus::Agent::InfileToDb
  call $1.NewDatum("Agent").cyclus::Datum::AddVal("Prototype", $0.GetString("name")) IF T
  call $1.NewDatum("Agent").cyclus::Datum::AddVal("Lifetime", cyclus::OptionalQuery($0,"lifetime",-1,of(int))) IF T
  call $1.NewDatum("Agent").cyclus::Datum::Record() IF T
fn cyclus::Agent::InitFrom | cyclus::QueryableBackend *
  set this.prototype_($0.Query("Agent",NULL).GetVal("Prototype",of(std::basic_string<char>))) IF T
  set this.id_($0.Query("Agent",NULL).GetVal("AgentId",of(int))) IF T
  set this.lifetime_($0.Query("Agent",NULL).GetVal("Lifetime",of(int))) IF T
fn cyclus::Agent::Snapshot
  call $0.NewDatum("Agent").cyclus::Datum::AddVal("Prototype", this.prototype_) IF T
  call $0.NewDatum("Agent").cyclus::Datum::AddVal("Lifetime", this.lifetime_) IF T
  call $0.NewDatum("Agent").cyclus::Datum::Record() IF T
fn cyclus::Agent::Agent | cyclus::Context *
  set this.kind_("Agent") IF T
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
fn cyclus::Agent::~Agent
  del this.ctx_.agent_list_.erase(this) IF has(this.ctx_.agent_list_,this)
  del this.parent_.children_.erase(this) IF has(this.parent_.children_,this) & this.parent_
  [for this.children_] set elem(this.children_).parent_(NULL) IF T
  [for this.children_] set elem(this.children_).parent_id_(-1) IF T
fn cyclus::Agent::AncestorOf
  [for while] ret return(true) IF this == ~ & ~
  ret return(false) IF !ANY(while: this == ~ & ~)
  leave !~ | this == ~
fn cyclus::Agent::DecendentOf
  [for $0.children_] call this.cyclus::Agent::DecendentOf(elem($0.children_)) IF !elem($0.children_) == this
  [for $0.children_] ret return(true) IF elem($0.children_) == this | this.DecendentOf(elem($0.children_))
  ret return(false) IF !ANY($0.children_: this.DecendentOf(elem($0.children_))) & !has($0.children_,this)
fn cyclus::Agent::InFamilyTree
  [for $0.children_] call this.cyclus::Agent::DecendentOf(elem($0.children_)) IF !$0 == this & !ANY(while: this == ~ & ~) & !elem($0.children_) == this
  ret return(true) IF $0 == this | ANY($0.children_: this.DecendentOf(elem($0.children_))) | ANY(while: this == ~ & ~) | has($0.children_,this)
  carry fold(while; $0.parent_; ~.parent_)
  leave !~ | this == ~
fn cyclus::Agent::Build
  throw cyclus::KeyError() IF $0 == this
  set this.parent_($0) IF $0 & !$0 == this
  set this.parent_id_($0.id_) IF $0 & !$0 == this
  add $0.children_.add(this) IF $0 & !$0 == this & !has($0.children_,this)
  set this.enter_time_(this.ctx_.ti_.time_) IF !$0 == this
  call this.cyclus::Agent::EnterNotify() IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("AgentId", this.id_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Kind", this.kind_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Spec", this.spec_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Prototype", this.prototype_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", $0.id_) IF $0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", this.parent_id_) IF !$0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Lifetime", this.lifetime_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("EnterTime", this.ctx_.ti_.time_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::Record() IF !$0 == this
  seq 1<5 2<5 3<5 4<5
fn cyclus::Agent::EnterNotify
  call this.ctx_.cyclus::Context::RegisterAgent(this) IF T
fn cyclus::Agent::Connect
  throw cyclus::KeyError() IF $0 == this
  set this.parent_($0) IF $0 & !$0 == this
  set this.parent_id_($0.id_) IF $0 & !$0 == this
  add $0.children_.add(this) IF $0 & !$0 == this & !has($0.children_,this)
fn cyclus::Agent::Decommission
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("AgentId", this.id_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("ExitTime", this.ctx_.ti_.time_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::Record() IF T
  call this.ctx_.cyclus::Context::UnregisterAgent(this) IF T
  call this.ctx_.cyclus::Context::DelAgent(this) IF T
fn cyclus::Agent::AddToTable
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("AgentId", this.id_) IF T
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Kind", this.kind_) IF T
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Spec", this.spec_) IF T
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Prototype", this.prototype_) IF T
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", this.parent_id_) IF T
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Lifetime", this.lifetime_) IF T
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("EnterTime", this.enter_time_) IF T
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::Record() IF T
fn cyclus::Agent::Agent | const cyclus::Agent &
  set this.kind_("") IF T
  set this.children_(set{}) IF T
  set this.prototype_("") IF T
  set this.spec_("") IF T
fn cyclus::Agent::str
  ret return(this.kind_ ++ "_" ++ this.prototype_ ++ " ( ID=" ++ this.id_ ++ ", implementation=" ++ this.spec_ ++ ",  name=" ++ this.prototype_ ++ ",  parentID=" ++ this.parent_id_ ++ " ) ") IF T
fn cyclus::Agent::lifetime | int
  throw cyclus::ValueError() IF !this.enter_time_ == -1
  set this.lifetime_($0) IF this.enter_time_ == -1
fn cyclus::Agent::PrintChildren
  [for this.children_] [for elem(this.children_).children_] call this.cyclus::Agent::GetTreePrintOuts(elem(elem(this.children_).children_)) IF T
  ret return(fold(this.children_; "Children of " ++ this.prototype_ ++ ":\n"; fold(fold(elem(this.children_).children_; [elem(this.children_).prototype_ ++ "\n"]; fold(this.GetTreePrintOuts(elem(elem(this.children_).children_)); ~; ~')); ~; ~ ++ "\t" ++ elem(fold(elem(this.children_).children_; [elem(this.children_).prototype_ ++ "\n"]; fold(this.GetTreePrintOuts(elem(elem(this.children_).children_)); ~; ~')))))) IF T
fn cyclus::Agent::GetTreePrintOuts
  [for $0.children_] call this.cyclus::Agent::GetTreePrintOuts(elem($0.children_)) IF T
  ret return(fold($0.children_; [$0.prototype_ ++ "\n"]; fold(this.GetTreePrintOuts(elem($0.children_)); ~; ~'))) IF T
fn cyclus::Agent::version
  ret return("unspecified") IF T
fn cyclus::Agent::BuildNotify
fn cyclus::Agent::DecomNotify
fn cyclus::Agent::schema
  ret return("<text />\n") IF T
fn cyclus::Agent::annotations
  ret return(Value{Json::objectValue}) IF T
fn cyclus::Agent::prototype | const
  ret return(this.prototype_) IF T
fn cyclus::Agent::prototype | std::basic_string<char>
  set this.prototype_($0) IF T
fn cyclus::Agent::id
  ret return(this.id_) IF T
fn cyclus::Agent::spec | 
  ret return(this.spec_) IF T
fn cyclus::Agent::spec | std::basic_string<char>
  set this.spec_($0) IF T
fn cyclus::Agent::kind
  ret return(this.kind_) IF T
fn cyclus::Agent::context
  ret return(this.ctx_) IF T
fn cyclus::Agent::parent
  ret return(this.parent_) IF T
fn cyclus::Agent::parent_id
  ret return(this.parent_id_) IF T
fn cyclus::Agent::enter_time
  ret return(this.enter_time_) IF T
fn cyclus::Agent::lifetime | const
  ret return(this.lifetime_) IF T
fn cyclus::Agent::exit_time
  ret return(-1) IF this.lifetime_ == -1
  ret return((this.enter_time_+this.lifetime_-1)) IF !this.lifetime_ == -1
fn cyclus::Agent::children
  ret return(this.children_) IF T
fn cyclus::Facility::str
  ret return(this.kind_ ++ "_" ++ this.prototype_ ++ " ( ID=" ++ this.id_ ++ ", implementation=" ++ this.spec_ ++ ",  name=" ++ this.prototype_ ++ ",  parentID=" ++ this.parent_id_ ++ " )  with:  lifetime: " ++ this.lifetime_ ++ " build date: " ++ this.enter_time_) IF T
fn cyclus::Facility::InfileToDb
fn cyclus::Facility::Snapshot
fn cyclus::Institution::str
  ret return(this.kind_ ++ "_" ++ this.prototype_ ++ " ( ID=" ++ this.id_ ++ ", implementation=" ++ this.spec_ ++ ",  name=" ++ this.prototype_ ++ ",  parentID=" ++ this.parent_id_ ++ " )  in region" ++ this.parent_.prototype_) IF this.parent_
  ret return(this.kind_ ++ "_" ++ this.prototype_ ++ " ( ID=" ++ this.id_ ++ ", implementation=" ++ this.spec_ ++ ",  name=" ++ this.prototype_ ++ ",  parentID=" ++ this.parent_id_ ++ " )  with no region.") IF !this.parent_
fn cyclus::Institution::InfileToDb
fn cyclus::Institution::Snapshot
fn cyclus::Institution::InitInv
fn cyclus::Institution::SnapshotInv
  ret return(map{}) IF T
fn cyclus::Region::str
  ret return(fold(this.children_; this.kind_ ++ "_" ++ this.prototype_ ++ " ( ID=" ++ this.id_ ++ ", implementation=" ++ this.spec_ ++ ",  name=" ++ this.prototype_ ++ ",  parentID=" ++ this.parent_id_ ++ " )  has insts: "; ~ ++ elem(this.children_).prototype_ ++ ", ")) IF T
fn cyclus::Region::InfileToDb
fn cyclus::Region::Snapshot
fn cyclus::Region::InitInv
fn cyclus::Region::SnapshotInv
  ret return(map{}) IF T
fn cyclus::Context::~Context
  delete delete(this.solver_) IF this.solver_
  delete delete(this.rng_) IF this.rng_
  [for this.agent_list_] add @vector<Agent *>.add(elem(this.agent_list_)) IF !elem(this.agent_list_).parent_
  [for fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~)] del this.agent_list_.erase(elem(fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~))) IF has(this.agent_list_,elem(fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~)))
  [for fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~)] call cyclus::PyDelAgent(elem(fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~)).id_) IF has(~this.agent_list_,elem(fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~)))
  [for fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~)] delete delete(elem(fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~))) IF elem(fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~)) & has(~this.agent_list_,elem(fold(this.agent_list_; @vector<Agent *>; !elem(this.agent_list_).parent_:~' ; elem(this.agent_list_).parent_:~)))
fn cyclus::Context::DelAgent
  del this.agent_list_.erase($0) IF has(this.agent_list_,$0)
  call cyclus::PyDelAgent($0.id_) IF has(this.agent_list_,$0)
  delete delete($0) IF $0 & has(this.agent_list_,$0)
fn cyclus::Context::CreateAgent
  throw cyclus::KeyError() IF !has(this.protos_,$0) | !this.protos_[$0]
  call this.protos_[$0].cyclus::Agent::Clone() IF has(this.protos_,$0) & this.protos_[$0]
  throw cyclus::StateError() IF has(this.protos_,$0) & this.protos_[$0] & !this.protos_[$0].Clone()
  * call cyclus::PyDelAgent(this.protos_[$0].Clone().id_) IF !dyn<cyclus::Agent>(this.protos_[$0].Clone()) & has(this.protos_,$0) & this.protos_[$0] & this.protos_[$0].Clone()
  del this.agent_list_.erase(this.protos_[$0].Clone()) IF !dyn<cyclus::Agent>(this.protos_[$0].Clone()) & has(this.agent_list_,this.protos_[$0].Clone()) & has(this.protos_,$0) & this.protos_[$0] & this.protos_[$0].Clone()
  delete delete(this.protos_[$0].Clone()) IF !dyn<cyclus::Agent>(this.protos_[$0].Clone()) & has(this.agent_list_,this.protos_[$0].Clone()) & has(this.protos_,$0) & this.protos_[$0] & this.protos_[$0].Clone()
  throw cyclus::CastError() IF !dyn<cyclus::Agent>(this.protos_[$0].Clone()) & has(this.protos_,$0) & this.protos_[$0] & this.protos_[$0].Clone()
  ret return(dyn<cyclus::Agent>(this.protos_[$0].Clone())) IF dyn<cyclus::Agent>(this.protos_[$0].Clone()) & has(this.protos_,$0) & this.protos_[$0] & this.protos_[$0].Clone()
  seq 1<4
fn cyclus::Facility::Facility
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.manager_(this) IF T
  set this.kind_("Facility") IF T
fn cyclus::Facility::InitFrom | cyclus::Facility *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
fn cyclus::Facility::Build
  throw cyclus::KeyError() IF $0 == this
  set this.parent_($0) IF $0 & !$0 == this
  set this.parent_id_($0.id_) IF $0 & !$0 == this
  add $0.children_.add(this) IF $0 & !$0 == this & !has($0.children_,this)
  set this.enter_time_(this.ctx_.ti_.time_) IF !$0 == this
  call this.cyclus::Agent::EnterNotify() IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("AgentId", this.id_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Kind", this.kind_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Spec", this.spec_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Prototype", this.prototype_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", $0.id_) IF $0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", this.parent_id_) IF !$0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Lifetime", this.lifetime_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("EnterTime", this.ctx_.ti_.time_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::Record() IF !$0 == this
  seq 1<5 2<5 3<5 4<5
fn cyclus::Facility::InitFrom | cyclus::QueryableBackend *
fn cyclus::Institution::Institution
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.kind_("Inst") IF T
fn cyclus::Institution::InitFrom | cyclus::Institution *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
fn cyclus::Institution::Build
  throw cyclus::KeyError() IF $0 == this
  set this.parent_($0) IF $0 & !$0 == this
  set this.parent_id_($0.id_) IF $0 & !$0 == this
  add $0.children_.add(this) IF $0 & !$0 == this & !has($0.children_,this)
  set this.enter_time_(this.ctx_.ti_.time_) IF !$0 == this
  call this.cyclus::Agent::EnterNotify() IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("AgentId", this.id_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Kind", this.kind_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Spec", this.spec_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Prototype", this.prototype_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", $0.id_) IF $0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", this.parent_id_) IF !$0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Lifetime", this.lifetime_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("EnterTime", this.ctx_.ti_.time_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::Record() IF !$0 == this
  seq 1<5 2<5 3<5 4<5
fn cyclus::Institution::Tock
  [for this.children_] call this.ctx_.cyclus::Context::SchedDecom(elem(this.children_)) IF !(elem(this.children_).enter_time_+elem(this.children_).lifetime_-this.ctx_.ti_.time_) >= 2 & !elem(this.children_).lifetime_ == -1
fn cyclus::Institution::InitFrom | cyclus::QueryableBackend *
fn cyclus::Institution::Tick
fn cyclus::Region::InitFrom | cyclus::Region *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
fn cyclus::Region::Region
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.kind_("Region") IF T
fn cyclus::Region::Build
  throw cyclus::KeyError() IF $0 == this
  set this.parent_($0) IF $0 & !$0 == this
  set this.parent_id_($0.id_) IF $0 & !$0 == this
  add $0.children_.add(this) IF $0 & !$0 == this & !has($0.children_,this)
  set this.enter_time_(this.ctx_.ti_.time_) IF !$0 == this
  call this.cyclus::Agent::EnterNotify() IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("AgentId", this.id_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Kind", this.kind_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Spec", this.spec_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Prototype", this.prototype_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", $0.id_) IF $0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", this.parent_id_) IF !$0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Lifetime", this.lifetime_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("EnterTime", this.ctx_.ti_.time_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::Record() IF !$0 == this
  seq 1<5 2<5 3<5 4<5
fn cyclus::Region::InitFrom | cyclus::QueryableBackend *
fn cyclus::Region::Tick
fn cyclus::Region::Tock
