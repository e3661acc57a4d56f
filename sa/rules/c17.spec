fn cyclus::SimInit::Init
  stop: SimInit::(Load|Init)
  set this.rec_(@Recorder) IF T
  call this.cyclus::SimInit::InitBase($1, $0.uuid_, 0) IF T
  set this.ctx_.rec_($0) IF T
  seq 0<1 1<2
fn cyclus::SimInit::Restart
  stop: SimInit::(Load|Init)
  call cyclus::Warn("restart capability is not finalized and fully tested. Its behavior may change in future releases.", of(cyclus::EXPERIMENTAL_WARNING)) IF T
  set this.rec_(new Recorder{}) IF T
  call this.cyclus::SimInit::InitBase($0, $1, $2) IF T
  set this.si_.parent_sim($1) IF T
  set this.si_.parent_type("restart") IF T
  set this.si_.branch_time($2) IF T
  call this.ctx_'.cyclus::Context::InitSim(this.si_') IF T
  seq 1<2 2<3 2<6
fn cyclus::SimInit::Branch
  stop: SimInit::(Load|Init)
  throw cyclus::Error() IF T
fn cyclus::SimInit::InitBase
  stop: SimInit::(Load|Init)
  set this.ctx_(new Context{this.ti_,this.rec_}) IF T
  set this.b_(new CondInjector{$0,[Cond{"SimId","==",$1}]}) IF T
  set this.t_($2) IF T
  set this.simid_($1) IF T
  call this.cyclus::SimInit::LoadInfo() IF T
  call this.cyclus::SimInit::LoadRecipes() IF T
  call this.cyclus::SimInit::LoadPackages() IF T
  call this.cyclus::SimInit::LoadTransportUnits() IF T
  call this.cyclus::SimInit::LoadSolverInfo() IF T
  call this.cyclus::SimInit::LoadPrototypes() IF T
  call this.cyclus::SimInit::LoadInitialAgents() IF T
  call this.cyclus::SimInit::LoadInventories() IF T
  call this.cyclus::SimInit::LoadBuildSched() IF T
  call this.cyclus::SimInit::LoadDecomSched() IF T
  call this.cyclus::SimInit::LoadNextIds() IF T
  call this.rec_.cyclus::Recorder::Flush() IF T
  seq 0<4 0<5 0<6 0<7 0<8 0<9 0<10 0<11 0<12 0<13 0<14 1<4 1<5 1<6 1<7 1<8 1<9 1<10 1<11 1<12 1<13 1<14 2<10 2<11 2<12 2<13 2<14 4<12 4<13 9<10 9<11 10<11 10<12 10<13
fn cyclus::SimInit::SimInit
  set this.agents_(map{}) IF T
  set this.ctx_(NULL) IF T
  set this.rec_(NULL) IF T
  set this.ti_(Timer{}) IF T
  set this.simid_(uuid{}) IF T
  set this.si_(SimInfo{}) IF T
fn cyclus::SimInit::~SimInit
  delete delete(this.ctx_) IF this.ctx_
fn cyclus::SimInit::Snapshot
  call $0.rec_.NewDatum("Snapshots").cyclus::Datum::AddVal("Time", $0.ti_.time_) IF T
  call $0.rec_.NewDatum("Snapshots").cyclus::Datum::Record() IF T
  [for $0.agent_list_] call elem($0.agent_list_).cyclus::Agent::Snapshot(DbInit{elem($0.agent_list_),true}) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] call elem($0.agent_list_).cyclus::Agent::Snapshot(DbInit{elem($0.agent_list_)}) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] call elem($0.agent_list_).cyclus::Agent::SnapshotInv() IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("AgentId", elem($0.agent_list_).id_) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("SimTime", elem($0.agent_list_).ctx_.ti_.time_) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("InventoryName", elem(elem($0.agent_list_).SnapshotInv()).first) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("ResourceId", elem(elem(elem($0.agent_list_).SnapshotInv()).second).state_id_) IF !elem($0.agent_list_).enter_time_ == -1
  [for $0.agent_list_] [for elem($0.agent_list_).SnapshotInv()] [for elem(elem($0.agent_list_).SnapshotInv()).second] call elem($0.agent_list_).ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::Record() IF !elem($0.agent_list_).enter_time_ == -1
  * call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Time", $0.ti_.time_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "Agent") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Agent::next_id_) IF T
  * call $0.rec_.NewDatum("NextIds").cyclus::Datum::Record() IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "Transaction") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", $0.trans_id_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "Composition") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Composition::next_id_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "ResourceState") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Resource::nextstate_id_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "ResourceObj") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Resource::nextobj_id_) IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("Object", "Product") IF T
  call $0.rec_.NewDatum("NextIds").cyclus::Datum::AddVal("NextId", cyclus::Product::next_qualid_) IF T
fn cyclus::SimInit::SnapAgent
  call $0.cyclus::Agent::Snapshot(DbInit{$0,true}) IF T
  call $0.cyclus::Agent::Snapshot(DbInit{$0}) IF T
  call $0.cyclus::Agent::SnapshotInv() IF T
  [for $0.SnapshotInv()] [for elem($0.SnapshotInv()).second] call $0.ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("AgentId", $0.id_) IF T
  [for $0.SnapshotInv()] [for elem($0.SnapshotInv()).second] call $0.ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("SimTime", $0.ctx_.ti_.time_) IF T
  [for $0.SnapshotInv()] [for elem($0.SnapshotInv()).second] call $0.ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("InventoryName", elem($0.SnapshotInv()).first) IF T
  [for $0.SnapshotInv()] [for elem($0.SnapshotInv()).second] call $0.ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::AddVal("ResourceId", elem(elem($0.SnapshotInv()).second).state_id_) IF T
  [for $0.SnapshotInv()] [for elem($0.SnapshotInv()).second] call $0.ctx_.rec_.NewDatum("AgentStateInventories").cyclus::Datum::Record() IF T
fn cyclus::SimInit::LoadInfo
  stop: SimInit::(Load|Build)
  set this.si_(SimInfo{this.b_.Query("Info",NULL).GetVal("Duration",of(int)),this.b_.Query("Info",NULL).GetVal("InitialYear",of(int)),this.b_.Query("Info",NULL).GetVal("InitialMonth",of(int)),this.b_.Query("Info",NULL).GetVal("Handle",of(std::basic_string<char>)),this.b_.Query("DecayMode",NULL).GetVal("Decay",of(std::basic_string<char>))}) IF T
  set this.si_.seed(this.b_.Query("Info",NULL).GetVal("Seed",of(int))) IF T
  set this.si_.stride(this.b_.Query("Info",NULL).GetVal("Stride",of(int))) IF T
  set this.si_.parent_sim(this.b_.Query("Info",NULL).GetVal("ParentSimId",of(boost::uuids::uuid))) IF T
  set this.si_.dt(this.b_.Query("TimeStepDur",NULL).GetVal("DurationSecs",of(int))) IF T
  set this.si_.eps(this.b_.Query("Epsilon",NULL).GetVal("GenericEpsilon",of(double))) IF T
  set this.si_.eps_rsrc(this.b_.Query("Epsilon",NULL).GetVal("ResourceEpsilon",of(double))) IF T
  set this.si_.explicit_inventory(this.b_.Query("InfoExplicitInv",NULL).GetVal("RecordInventory",of(bool))) IF T
  set this.si_.explicit_inventory_compact(this.b_.Query("InfoExplicitInv",NULL).GetVal("RecordInventoryCompact",of(bool))) IF T
  call this.ctx_.cyclus::Context::InitSim(SimInfo{this.b_.Query("Info",NULL).GetVal("Duration",of(int)),this.b_.Query("Info",NULL).GetVal("InitialYear",of(int)),this.b_.Query("Info",NULL).GetVal("InitialMonth",of(int)),this.b_.Query("Info",NULL).GetVal("Handle",of(std::basic_string<char>)),this.b_.Query("DecayMode",NULL).GetVal("Decay",of(std::basic_string<char>))}) IF T
fn cyclus::SimInit::LoadPackages
  stop: SimInit::(Load|Build)
  [for this.b_.Query("Packages",NULL).rows] call this.ctx_.cyclus::Context::AddPackage(this.b_.Query("Packages",NULL).GetVal("PackageName",idx(this.b_.Query("Packages",NULL).rows),of(std::basic_string<char>)), this.b_.Query("Packages",NULL).GetVal("FillMin",idx(this.b_.Query("Packages",NULL).rows),of(double)), this.b_.Query("Packages",NULL).GetVal("FillMax",idx(this.b_.Query("Packages",NULL).rows),of(double)), this.b_.Query("Packages",NULL).GetVal("Strategy",idx(this.b_.Query("Packages",NULL).rows),of(std::basic_string<char>))) IF !cyclus::Package::unpackaged_name_ == this.b_.Query("Packages",NULL).GetVal("PackageName",idx(this.b_.Query("Packages",NULL).rows),of(std::basic_string<char>))
  [for this.b_.Query("Packages",NULL).rows] call this.ctx_.cyclus::Context::RecordPackage(cyclus::Package::unpackaged()) IF cyclus::Package::unpackaged_name_ == this.b_.Query("Packages",NULL).GetVal("PackageName",idx(this.b_.Query("Packages",NULL).rows),of(std::basic_string<char>))
fn cyclus::SimInit::LoadTransportUnits
  stop: SimInit::(Load|Build)
  [for this.b_.Query("TransportUnits",NULL).rows] call this.ctx_.cyclus::Context::AddTransportUnit(this.b_.Query("TransportUnits",NULL).GetVal("TransportUnitName",idx(this.b_.Query("TransportUnits",NULL).rows),of(std::basic_string<char>)), this.b_.Query("TransportUnits",NULL).GetVal("FillMin",idx(this.b_.Query("TransportUnits",NULL).rows),of(int)), this.b_.Query("TransportUnits",NULL).GetVal("FillMax",idx(this.b_.Query("TransportUnits",NULL).rows),of(int)), this.b_.Query("TransportUnits",NULL).GetVal("Strategy",idx(this.b_.Query("TransportUnits",NULL).rows),of(std::basic_string<char>))) IF !cyclus::TransportUnit::unrestricted_name_ == this.b_.Query("TransportUnits",NULL).GetVal("TransportUnitName",idx(this.b_.Query("TransportUnits",NULL).rows),of(std::basic_string<char>))
  [for this.b_.Query("TransportUnits",NULL).rows] call this.ctx_.cyclus::Context::RecordTransportUnit(cyclus::TransportUnit::unrestricted()) IF cyclus::TransportUnit::unrestricted_name_ == this.b_.Query("TransportUnits",NULL).GetVal("TransportUnitName",idx(this.b_.Query("TransportUnits",NULL).rows),of(std::basic_string<char>))
fn cyclus::SimInit::LoadPrototypes
  stop: SimInit::(Load|Build)
  [for this.b_.Query("Prototypes",NULL).rows] call cyclus::DynamicModule::Make(this.ctx_, AgentSpec{this.b_.Query("Prototypes",NULL).GetVal("Spec",idx(this.b_.Query("Prototypes",NULL).rows),of(std::basic_string<char>))}) IF T
  [for this.b_.Query("Prototypes",NULL).rows] set cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("Prototypes",NULL).GetVal("Spec",idx(this.b_.Query("Prototypes",NULL).rows),of(std::basic_string<char>))}).id_(this.b_.Query("Prototypes",NULL).GetVal("AgentId",idx(this.b_.Query("Prototypes",NULL).rows),of(int))) IF T
  [for this.b_.Query("Prototypes",NULL).rows] call cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("Prototypes",NULL).GetVal("Spec",idx(this.b_.Query("Prototypes",NULL).rows),of(std::basic_string<char>))}).cyclus::Agent::InitFrom(PrefixInjector{CondInjector{this.b_,[Cond{"AgentId","==",this.b_.Query("Prototypes",NULL).GetVal("AgentId",idx(this.b_.Query("Prototypes",NULL).rows),of(int))}]},"AgentState"}) IF T
  [for this.b_.Query("Prototypes",NULL).rows] call AgentSpec{this.b_.Query("Prototypes",NULL).GetVal("Spec",idx(this.b_.Query("Prototypes",NULL).rows),of(std::basic_string<char>))}.cyclus::AgentSpec::Sanitize() IF T
  [for this.b_.Query("Prototypes",NULL).rows] call cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("Prototypes",NULL).GetVal("Spec",idx(this.b_.Query("Prototypes",NULL).rows),of(std::basic_string<char>))}).cyclus::Agent::InitFrom(PrefixInjector{CondInjector{this.b_,[Cond{"AgentId","==",this.b_.Query("Prototypes",NULL).GetVal("AgentId",idx(this.b_.Query("Prototypes",NULL).rows),of(int))}]},"AgentState" ++ AgentSpec{this.b_.Query("Prototypes",NULL).GetVal("Spec",idx(this.b_.Query("Prototypes",NULL).rows),of(std::basic_string<char>))}.Sanitize()}) IF T
  [for this.b_.Query("Prototypes",NULL).rows] call this.ctx_.cyclus::Context::AddPrototype(this.b_.Query("Prototypes",NULL).GetVal("Prototype",idx(this.b_.Query("Prototypes",NULL).rows),of(std::basic_string<char>)), cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("Prototypes",NULL).GetVal("Spec",idx(this.b_.Query("Prototypes",NULL).rows),of(std::basic_string<char>))})) IF T
  seq 1<2 1<4 1<5 2<4 2<5 4<5
fn cyclus::SimInit::LoadInitialAgents
  stop: SimInit::(Load|Build)
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] call cyclus::DynamicModule::Make(this.ctx_, AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))}) IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] set cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))}).prototype_(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Prototype",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))) IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] set cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))}).id_(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))) IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] set cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))}).enter_time_(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))) IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] put @map<int, Agent *>.put(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)), cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))})) IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] put @map<int, int>.put(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)), this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("ParentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))) IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] call cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))}).cyclus::Agent::InitFrom(PrefixInjector{CondInjector{this.b_,[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"SimTime","==",this.t_}]},"AgentState"}) IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] call AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))}.cyclus::AgentSpec::Sanitize() IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows] call cyclus::DynamicModule::Make(this.ctx_,AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))}).cyclus::Agent::InitFrom(PrefixInjector{CondInjector{this.b_,[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"SimTime","==",this.t_}]},"AgentState" ++ AgentSpec{this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("Spec",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(std::basic_string<char>))}.Sanitize()}) IF caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1
  [for while] call ~.second.cyclus::Agent::Connect(NULL) IF !empty(~) & fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1
  [for while] put this.agents_.put(~.first, ~.second) IF !empty(~) & fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1 | !empty(~) & has(this.agents_,fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first])
  [for while] del @map<int, Agent *>.erase(~.first) IF !empty(~) & fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1 & has(@map<int, Agent *>,~.first) | !empty(~) & has(@map<int, Agent *>,~.first) & has(this.agents_,fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first])
  [for while] add @vector<Agent *>.add(~.second) IF !empty(~) & fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1 | !empty(~) & has(this.agents_,fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first])
  [for while] call ~.second.cyclus::Agent::Connect(this.agents_[fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first]]) IF !empty(~) & !fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1 & has(this.agents_,fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first])
  [for fold(while; @vector<Agent *>; !fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1 & !has(this.agents_,fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first]):~ ; fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1 | has(this.agents_,fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first]):~')] call elem(fold(while; @vector<Agent *>; !fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1 & !has(this.agents_,fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first]):~ ; fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first] == -1 | has(this.agents_,fold(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows; @map<int, int>; !caught(std::exception) & !empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) | this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ & this.t_ >= 1:~ ; caught(std::exception) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | caught(std::exception) & !this.t_ >= 1 | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("EnterTime",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int)) == this.t_ | empty(this.b_.Query("AgentExit",[Cond{"AgentId","==",this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).GetVal("AgentId",idx(this.b_.Query("AgentEntry",[Cond{"EnterTime","<=",this.t_}]).rows),of(int))}, Cond{"ExitTime","<",this.t_}]).rows) & !this.t_ >= 1:~')[~.first]):~')).cyclus::Agent::EnterNotify() IF T
  leave empty(~)
  seq 1<6 1<8 1<14 2<6 2<8 2<14 3<14 6<8 10<14
fn cyclus::SimInit::LoadInventories
  stop: SimInit::(Load|Build)
  [for this.agents_] [for this.b_.Query("AgentStateInventories",[Cond{"SimTime","==",this.t_}, Cond{"AgentId","==",elem(this.agents_).second.id_}]).rows] call cyclus::SimInit::LoadResource(this.ctx_, this.b_, this.b_.Query("AgentStateInventories",[Cond{"SimTime","==",this.t_}, Cond{"AgentId","==",elem(this.agents_).second.id_}]).GetVal("ResourceId",idx(this.b_.Query("AgentStateInventories",[Cond{"SimTime","==",this.t_}, Cond{"AgentId","==",elem(this.agents_).second.id_}]).rows),of(int))) IF T
  [for this.agents_] [for this.b_.Query("AgentStateInventories",[Cond{"SimTime","==",this.t_}, Cond{"AgentId","==",elem(this.agents_).second.id_}]).rows] add ~@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>[this.b_.Query("AgentStateInventories",[Cond{"SimTime","==",this.t_}, Cond{"AgentId","==",elem(this.agents_).second.id_}]).GetVal("InventoryName",idx(this.b_.Query("AgentStateInventories",[Cond{"SimTime","==",this.t_}, Cond{"AgentId","==",elem(this.agents_).second.id_}]).rows),of(std::basic_string<char>))].add(cyclus::SimInit::LoadResource(this.ctx_,this.b_,this.b_.Query("AgentStateInventories",[Cond{"SimTime","==",this.t_}, Cond{"AgentId","==",elem(this.agents_).second.id_}]).GetVal("ResourceId",idx(this.b_.Query("AgentStateInventories",[Cond{"SimTime","==",this.t_}, Cond{"AgentId","==",elem(this.agents_).second.id_}]).rows),of(int)))) IF T
  [for this.agents_] call elem(this.agents_).second.cyclus::Agent::InitInv(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
  seq 0<2
fn cyclus::SimInit::LoadBuildSched
  stop: SimInit::(Load|Build)
  [for phi{this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).rows}] call this.ctx_.cyclus::Context::SchedBuild(this.agents_[this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).GetVal("ParentId",idx(phi{this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).rows}),of(int))], this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).GetVal("Prototype",idx(phi{this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).rows}),of(std::basic_string<char>)), this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).GetVal("BuildTime",idx(phi{this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).rows}),of(int))) IF this.t_ >= 1
  [for phi{this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).rows}] call this.ctx_.cyclus::Context::SchedBuild(this.agents_[this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).GetVal("ParentId",idx(phi{this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).rows}),of(int))], this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).GetVal("Prototype",idx(phi{this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).rows}),of(std::basic_string<char>)), this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).GetVal("BuildTime",idx(phi{this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("BuildSchedule",[Cond{"BuildTime",">=",this.t_}]).rows}),of(int))) IF !this.t_ >= 1
fn cyclus::SimInit::LoadDecomSched
  stop: SimInit::(Load|Build)
  [for phi{this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).rows}] call this.ctx_.cyclus::Context::SchedDecom(this.agents_[this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).GetVal("AgentId",idx(phi{this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).rows}),of(int))], this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).GetVal("DecomTime",idx(phi{this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).rows}),of(int))) IF has(this.agents_,this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).GetVal("AgentId",idx(phi{this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).rows}),of(int))) & this.t_ >= 1
  [for phi{this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).rows}] call this.ctx_.cyclus::Context::SchedDecom(this.agents_[this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).GetVal("AgentId",idx(phi{this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).rows}),of(int))], this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).GetVal("DecomTime",idx(phi{this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).rows}),of(int))) IF has(this.agents_,this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).GetVal("AgentId",idx(phi{this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}, Cond{"SchedTime","<",this.t_}]).rows|this.b_.Query("DecomSchedule",[Cond{"DecomTime",">=",this.t_}]).rows}),of(int))) & !this.t_ >= 1
fn cyclus::SimInit::LoadNextIds
  stop: SimInit::(Load|Build)
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Agent::next_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set this.ctx_.trans_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Composition::next_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Resource::nextstate_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceState" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Resource::nextobj_id_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceObj" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceState" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] set cyclus::Product::next_qualid_(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("NextId",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(int))) IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Product" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceObj" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceState" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
  [for this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows] throw cyclus::IOError() IF !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Agent" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Composition" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Product" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceObj" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "ResourceState" & !this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).GetVal("Object",idx(this.b_.Query("NextIds",[Cond{"Time","==",this.t_}]).rows),of(std::basic_string<char>)) == "Transaction"
fn cyclus::SimInit::BuildMaterial
  stop: SimInit::(Load|Build)
  call cyclus::SimInit::LoadResource(Context{@Timer,@Recorder}, $0, $1) IF T
  call dyn<cyclus::Material>(cyclus::SimInit::LoadResource(Context{@Timer,@Recorder},$0,$1)).tracker_.cyclus::ResTracker::DontTrack() IF T
  set dyn<cyclus::Material>(cyclus::SimInit::LoadResource(Context{@Timer,@Recorder},$0,$1)).ctx_(NULL) IF T
  ret return(dyn<cyclus::Material>(cyclus::SimInit::LoadResource(Context{@Timer,@Recorder},$0,$1))) IF T
  seq 0<2
fn cyclus::SimInit::BuildProduct
  stop: SimInit::(Load|Build)
  call cyclus::SimInit::LoadResource(Context{@Timer,@Recorder}, $0, $1) IF T
  call dyn<cyclus::Product>(cyclus::SimInit::LoadResource(Context{@Timer,@Recorder},$0,$1)).tracker_.cyclus::ResTracker::DontTrack() IF T
  set dyn<cyclus::Product>(cyclus::SimInit::LoadResource(Context{@Timer,@Recorder},$0,$1)).ctx_(NULL) IF T
  ret return(dyn<cyclus::Product>(cyclus::SimInit::LoadResource(Context{@Timer,@Recorder},$0,$1))) IF T
fn cyclus::SimInit::LoadResource
  stop: SimInit::(Load|Build)
  call cyclus::SimInit::LoadMaterial($0, $1, $2) IF $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Material::kType
  call cyclus::SimInit::LoadProduct($0, $1, $2) IF !$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Material::kType & $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Product::kType
  set phi{cyclus::SimInit::LoadMaterial($0,$1,$2)|cyclus::SimInit::LoadProduct($0,$1,$2)}.state_id_($2) IF $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Material::kType | $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Product::kType
  set phi{cyclus::SimInit::LoadMaterial($0,$1,$2)|cyclus::SimInit::LoadProduct($0,$1,$2)}.obj_id_($1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("ObjId",of(int))) IF $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Material::kType | $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Product::kType
  ret return(cyclus::SimInit::LoadMaterial($0,$1,$2)) IF $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Material::kType
  ret return(cyclus::SimInit::LoadProduct($0,$1,$2)) IF !$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Material::kType & $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Product::kType
  throw cyclus::IOError() IF !$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Material::kType & !$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Type",of(std::basic_string<char>)) == cyclus::Product::kType
  seq 0<2 0<3 1<2 1<3
fn cyclus::SimInit::LoadMaterial
  stop: SimInit::(Load|Build)
  call cyclus::SimInit::LoadComposition($1, $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("QualId",of(int))) IF T
  call cyclus::Material::Create(new Dummy{$0}, $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Quantity",of(double)), cyclus::SimInit::LoadComposition($1,$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("QualId",of(int))), $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("PackageName",of(std::basic_string<char>))) IF T
  set cyclus::Material::Create(new Dummy{$0},$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Quantity",of(double)),cyclus::SimInit::LoadComposition($1,$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("QualId",of(int))),$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("PackageName",of(std::basic_string<char>))).prev_decay_time_($1.Query("MaterialInfo",[Cond{"ResourceId","==",$2}]).GetVal("PrevDecayTime",of(int))) IF T
  call $0.cyclus::Context::DelAgent(new Dummy{$0}) IF T
  ret return(cyclus::Material::Create(new Dummy{$0},$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Quantity",of(double)),cyclus::SimInit::LoadComposition($1,$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("QualId",of(int))),$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("PackageName",of(std::basic_string<char>)))) IF T
  seq 1<2
fn cyclus::SimInit::LoadComposition
  stop: SimInit::(Load|Build)
  [for $0.Query("Compositions",[Cond{"QualId","==",$1}]).rows] put @map<int, double>.put($0.Query("Compositions",[Cond{"QualId","==",$1}]).GetVal("NucId",idx($0.Query("Compositions",[Cond{"QualId","==",$1}]).rows),of(int)), $0.Query("Compositions",[Cond{"QualId","==",$1}]).GetVal("MassFrac",idx($0.Query("Compositions",[Cond{"QualId","==",$1}]).rows),of(double))) IF T
  call cyclus::Composition::CreateFromMass(@map<int, double>) IF T
  set cyclus::Composition::CreateFromMass(@map<int, double>).recorded_(true) IF T
  set cyclus::Composition::CreateFromMass(@map<int, double>).id_($1) IF T
  ret return(cyclus::Composition::CreateFromMass(@map<int, double>)) IF T
fn cyclus::SimInit::LoadProduct
  stop: SimInit::(Load|Build)
  put cyclus::Product::qualids_.put($1.Query("Products",[Cond{"QualId","==",$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("QualId",of(int))}]).GetVal("Quality",of(std::basic_string<char>)), $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("QualId",of(int))) IF T
  call cyclus::Product::Create(new Dummy{$0}, $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Quantity",of(double)), $1.Query("Products",[Cond{"QualId","==",$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("QualId",of(int))}]).GetVal("Quality",of(std::basic_string<char>)), $1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("PackageName",of(std::basic_string<char>))) IF T
  call $0.cyclus::Context::DelAgent(new Dummy{$0}) IF T
  ret return(cyclus::Product::Create(new Dummy{$0},$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("Quantity",of(double)),$1.Query("Products",[Cond{"QualId","==",$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("QualId",of(int))}]).GetVal("Quality",of(std::basic_string<char>)),$1.Query("Resources",[Cond{"ResourceId","==",$2}]).GetVal("PackageName",of(std::basic_string<char>)))) IF T
  seq 0<1
fn cyclus::SimInit::LoadSolverInfo
  stop: SimInit::Load
  call this.cyclus::SimInit::LoadGreedySolver(this.b_.Query("SolverInfo",NULL).GetVal("ExclusiveOrders",of(bool)), this.b_.Tables()) IF !empty(this.b_.Query("SolverInfo",NULL).rows) & has(this.b_.Tables(),"SolverInfo") & this.b_.Query("SolverInfo",NULL).GetVal("Solver",of(std::basic_string<char>)) == "greedy"
  call this.cyclus::SimInit::LoadGreedySolver(<uninit>, this.b_.Tables()) IF empty("greedy") & !has(this.b_.Tables(),"SolverInfo") | empty("greedy") & empty(this.b_.Query("SolverInfo",NULL).rows)
  call this.cyclus::SimInit::LoadCoinSolver(this.b_.Query("SolverInfo",NULL).GetVal("ExclusiveOrders",of(bool)), this.b_.Tables()) IF !empty(this.b_.Query("SolverInfo",NULL).rows) & has(this.b_.Tables(),"SolverInfo") & this.b_.Query("SolverInfo",NULL).GetVal("Solver",of(std::basic_string<char>)) == "coin-or" & !this.b_.Query("SolverInfo",NULL).GetVal("Solver",of(std::basic_string<char>)) == "greedy"
  call this.cyclus::SimInit::LoadCoinSolver(<uninit>, this.b_.Tables()) IF empty("coin-or") & !empty("greedy") & !has(this.b_.Tables(),"SolverInfo") | empty("coin-or") & !empty("greedy") & empty(this.b_.Query("SolverInfo",NULL).rows)
  call this.ctx_.cyclus::Context::solver(this.LoadGreedySolver(this.b_.Query("SolverInfo",NULL).GetVal("ExclusiveOrders",of(bool)),this.b_.Tables())) IF !empty(this.b_.Query("SolverInfo",NULL).rows) & has(this.b_.Tables(),"SolverInfo") & this.b_.Query("SolverInfo",NULL).GetVal("Solver",of(std::basic_string<char>)) == "greedy"
  call this.ctx_.cyclus::Context::solver(this.LoadGreedySolver(<uninit>,this.b_.Tables())) IF empty("greedy") & !has(this.b_.Tables(),"SolverInfo") | empty("greedy") & empty(this.b_.Query("SolverInfo",NULL).rows)
  call this.ctx_.cyclus::Context::solver(this.LoadCoinSolver(this.b_.Query("SolverInfo",NULL).GetVal("ExclusiveOrders",of(bool)),this.b_.Tables())) IF !empty(this.b_.Query("SolverInfo",NULL).rows) & has(this.b_.Tables(),"SolverInfo") & this.b_.Query("SolverInfo",NULL).GetVal("Solver",of(std::basic_string<char>)) == "coin-or" & !this.b_.Query("SolverInfo",NULL).GetVal("Solver",of(std::basic_string<char>)) == "greedy"
  call this.ctx_.cyclus::Context::solver(this.LoadCoinSolver(<uninit>,this.b_.Tables())) IF empty("coin-or") & !empty("greedy") & !has(this.b_.Tables(),"SolverInfo") | empty("coin-or") & !empty("greedy") & empty(this.b_.Query("SolverInfo",NULL).rows)
  throw cyclus::ValueError() IF !empty("coin-or") & !empty("greedy") & !has(this.b_.Tables(),"SolverInfo") | !empty("coin-or") & !empty("greedy") & empty(this.b_.Query("SolverInfo",NULL).rows) | !empty(this.b_.Query("SolverInfo",NULL).rows) & has(this.b_.Tables(),"SolverInfo") & !this.b_.Query("SolverInfo",NULL).GetVal("Solver",of(std::basic_string<char>)) == "coin-or" & !this.b_.Query("SolverInfo",NULL).GetVal("Solver",of(std::basic_string<char>)) == "greedy"
fn cyclus::SimInit::LoadPreconditioner
  ret return(NULL) IF caught(std::exception)
  [for this.b_.Query("CommodPriority",NULL).rows] put @map<basic_string<char>, double>.put(this.b_.Query("CommodPriority",NULL).GetVal("Commodity",idx(this.b_.Query("CommodPriority",NULL).rows),of(std::basic_string<char>)), this.b_.Query("CommodPriority",NULL).GetVal("SolutionPriority",idx(this.b_.Query("CommodPriority",NULL).rows),of(double))) IF T
  ret return(new GreedyPreconditioner{@map<basic_string<char>, double>,cyclus::GreedyPreconditioner::REVERSE}) IF $0 == "greedy" & !caught(std::exception)
  throw cyclus::ValueError() IF !$0 == "greedy"
fn cyclus::SimInit::LoadGreedySolver
  [for this.b_.Query("CommodPriority",NULL).rows] put @map<basic_string<char>, double>.put(this.b_.Query("CommodPriority",NULL).GetVal("Commodity",idx(this.b_.Query("CommodPriority",NULL).rows),of(std::basic_string<char>)), this.b_.Query("CommodPriority",NULL).GetVal("SolutionPriority",idx(this.b_.Query("CommodPriority",NULL).rows),of(double))) IF T
  ret return(new GreedySolver{$0}) IF caught(std::exception)
  ret return(new GreedySolver{$0,new GreedyPreconditioner{@map<basic_string<char>, double>,cyclus::GreedyPreconditioner::REVERSE}}) IF !caught(std::exception) & !has($1,"GreedySolverInfo") | !caught(std::exception) & empty(this.b_.Query("GreedySolverInfo",NULL).rows) | !caught(std::exception) & this.b_.Query("GreedySolverInfo",NULL).GetVal("Preconditioner",of(std::basic_string<char>)) == "greedy"
  throw cyclus::ValueError() IF !empty(this.b_.Query("GreedySolverInfo",NULL).rows) & has($1,"GreedySolverInfo") & !this.b_.Query("GreedySolverInfo",NULL).GetVal("Preconditioner",of(std::basic_string<char>)) == "greedy"
fn cyclus::SimInit::LoadCoinSolver
  ret return(new ProgSolver{"cbc",cyclus::ProgSolver::kDefaultTimeout,$0,this.b_.Query("CoinSolverInfo",NULL).GetVal("Verbose",of(bool)),this.b_.Query("CoinSolverInfo",NULL).GetVal("Mps",of(bool))}) IF has($1,"CoinSolverInfo") & !this.b_.Query("CoinSolverInfo",NULL).GetVal("Timeout",of(double)) > 0
  ret return(new ProgSolver{"cbc",cyclus::ProgSolver::kDefaultTimeout,$0,false,false}) IF !has($1,"CoinSolverInfo")
  ret return(new ProgSolver{"cbc",this.b_.Query("CoinSolverInfo",NULL).GetVal("Timeout",of(double)),$0,this.b_.Query("CoinSolverInfo",NULL).GetVal("Verbose",of(bool)),this.b_.Query("CoinSolverInfo",NULL).GetVal("Mps",of(bool))}) IF has($1,"CoinSolverInfo") & this.b_.Query("CoinSolverInfo",NULL).GetVal("Timeout",of(double)) > 0
fn cyclus::SimInit::context
  ret return(this.ctx_) IF T
fn cyclus::SimInit::recorder
  ret return(this.rec_) IF T
fn cyclus::SimInit::timer
  ret return(this.ti_) IF T
