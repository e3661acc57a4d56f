fn cyclus::Context::Context
  set this.rec_ver_(set{}) IF T
  set this.protos_(map{}) IF T
  set this.recipes_(map{}) IF T
  set this.packages_(map{}) IF T
  set this.transport_units_(map{}) IF T
  set this.agent_list_(set{}) IF T
  set this.traders_(set{}) IF T
  set this.n_prototypes_(map{}) IF T
  set this.n_specs_(map{}) IF T
  set this.si_(0) IF T
  set this.ti_($0) IF T
  set this.solver_(NULL) IF T
  set this.rec_($1) IF T
  set this.trans_id_(0) IF T
  set this.rng_(new RandomNumberGenerator{}) IF T
fn cyclus::Context::sim_id
  ret return(this.rec_.uuid_) IF T
fn cyclus::Context::AddPrototype | std::basic_string<char>; cyclus::Agent *
  throw cyclus::KeyError() IF has(this.protos_,$0)
  put this.protos_.put($0, $1) IF !has(this.protos_,$0)
  call cyclus::SimInit::SnapAgent($1) IF !has(this.protos_,$0)
  call this.rec_.NewDatum("Prototypes").cyclus::Datum::AddVal("Prototype", $0) IF !has(this.protos_,$0)
  call this.rec_.NewDatum("Prototypes").cyclus::Datum::AddVal("AgentId", $1.id_) IF !has(this.protos_,$0)
  call this.rec_.NewDatum("Prototypes").cyclus::Datum::AddVal("Spec", $1.spec_) IF !has(this.protos_,$0)
  call this.rec_.NewDatum("Prototypes").cyclus::Datum::Record() IF !has(this.protos_,$0)
  add this.rec_ver_.add($1.spec_) IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_)
  call this.rec_.NewDatum("AgentVersions").cyclus::Datum::AddVal("Spec", $1.spec_) IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_)
  call $1.cyclus::Agent::version() IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_)
  call this.rec_.NewDatum("AgentVersions").cyclus::Datum::AddVal("Version", $1.version()) IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_)
  call this.rec_.NewDatum("AgentVersions").cyclus::Datum::Record() IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_)
fn cyclus::Context::AddPrototype | std::basic_string<char>; cyclus::Agent *; bool
  throw cyclus::KeyError() IF !$2 & has(this.protos_,$0)
  put this.protos_.put($0, $1) IF !has(this.protos_,$0) | $2
  call cyclus::SimInit::SnapAgent($1) IF !has(this.protos_,$0) | $2
  call this.rec_.NewDatum("Prototypes").cyclus::Datum::AddVal("Prototype", $0) IF !has(this.protos_,$0) | $2
  call this.rec_.NewDatum("Prototypes").cyclus::Datum::AddVal("AgentId", $1.id_) IF !has(this.protos_,$0) | $2
  call this.rec_.NewDatum("Prototypes").cyclus::Datum::AddVal("Spec", $1.spec_) IF !has(this.protos_,$0) | $2
  call this.rec_.NewDatum("Prototypes").cyclus::Datum::Record() IF !has(this.protos_,$0) | $2
  add this.rec_ver_.add($1.spec_) IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_) | $2 & !has(this.rec_ver_,$1.spec_)
  call this.rec_.NewDatum("AgentVersions").cyclus::Datum::AddVal("Spec", $1.spec_) IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_) | $2 & !has(this.rec_ver_,$1.spec_)
  call $1.cyclus::Agent::version() IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_) | $2 & !has(this.rec_ver_,$1.spec_)
  call this.rec_.NewDatum("AgentVersions").cyclus::Datum::AddVal("Version", $1.version()) IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_) | $2 & !has(this.rec_ver_,$1.spec_)
  call this.rec_.NewDatum("AgentVersions").cyclus::Datum::Record() IF !has(this.protos_,$0) & !has(this.rec_ver_,$1.spec_) | $2 & !has(this.rec_ver_,$1.spec_)
fn cyclus::Context::AddRecipe
  put this.recipes_.put($0, $1) IF T
  call this.rec_.NewDatum("Recipes").cyclus::Datum::AddVal("Recipe", $0) IF T
  call this.rec_.NewDatum("Recipes").cyclus::Datum::AddVal("QualId", $1.id_) IF T
  call this.rec_.NewDatum("Recipes").cyclus::Datum::Record() IF T
fn cyclus::Context::GetRecipe
  throw cyclus::KeyError() IF !has(this.recipes_,$0)
  ret return(this.recipes_[$0]) IF has(this.recipes_,$0)
fn cyclus::Context::AddPackage
  default 1 = 0
  default 2 = std::numeric_limits<double>::max()
  default 3 = "first"
  call cyclus::Package::Create($0, $1, $2, $3) IF !has(this.packages_,$0)
  put this.packages_.put($0, cyclus::Package::Create($0,$1,$2,$3)) IF !has(this.packages_,$0)
  call this.rec_.NewDatum("Packages").cyclus::Datum::AddVal("PackageName", cyclus::Package::Create($0,$1,$2,$3).name_) IF !has(this.packages_,$0)
  call this.rec_.NewDatum("Packages").cyclus::Datum::AddVal("FillMin", cyclus::Package::Create($0,$1,$2,$3).fill_min_) IF !has(this.packages_,$0)
  call this.rec_.NewDatum("Packages").cyclus::Datum::AddVal("FillMax", cyclus::Package::Create($0,$1,$2,$3).fill_max_) IF !has(this.packages_,$0)
  call this.rec_.NewDatum("Packages").cyclus::Datum::AddVal("Strategy", cyclus::Package::Create($0,$1,$2,$3).strategy_) IF !has(this.packages_,$0)
  call this.rec_.NewDatum("Packages").cyclus::Datum::Record() IF !has(this.packages_,$0)
  throw cyclus::KeyError() IF has(this.packages_,$0)
fn cyclus::Context::RecordPackage
  call this.rec_.NewDatum("Packages").cyclus::Datum::AddVal("PackageName", $0.name_) IF T
  call this.rec_.NewDatum("Packages").cyclus::Datum::AddVal("FillMin", $0.fill_min_) IF T
  call this.rec_.NewDatum("Packages").cyclus::Datum::AddVal("FillMax", $0.fill_max_) IF T
  call this.rec_.NewDatum("Packages").cyclus::Datum::AddVal("Strategy", $0.strategy_) IF T
  call this.rec_.NewDatum("Packages").cyclus::Datum::Record() IF T
fn cyclus::Context::GetPackage
  ret return(cyclus::Package::unpackaged()) IF $0 == cyclus::Package::unpackaged_name_
  throw cyclus::KeyError() IF !$0 == cyclus::Package::unpackaged_name_ & !has(this.packages_,$0) | !$0 == cyclus::Package::unpackaged_name_ & empty(this.packages_)
  ret return(this.packages_[$0]) IF !$0 == cyclus::Package::unpackaged_name_ & !empty(this.packages_) & has(this.packages_,$0)
fn cyclus::Context::AddTransportUnit
  default 1 = 0
  default 2 = std::numeric_limits<int>::max()
  default 3 = "first"
  call cyclus::TransportUnit::Create($0, $1, $2, $3) IF !has(this.transport_units_,$0)
  put this.transport_units_.put($0, cyclus::TransportUnit::Create($0,$1,$2,$3)) IF !has(this.transport_units_,$0)
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::AddVal("TransportUnitName", cyclus::TransportUnit::Create($0,$1,$2,$3).name_) IF !has(this.transport_units_,$0)
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::AddVal("FillMin", cyclus::TransportUnit::Create($0,$1,$2,$3).fill_min_) IF !has(this.transport_units_,$0)
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::AddVal("FillMax", cyclus::TransportUnit::Create($0,$1,$2,$3).fill_max_) IF !has(this.transport_units_,$0)
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::AddVal("Strategy", cyclus::TransportUnit::Create($0,$1,$2,$3).strategy_) IF !has(this.transport_units_,$0)
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::Record() IF !has(this.transport_units_,$0)
  throw cyclus::KeyError() IF has(this.transport_units_,$0)
fn cyclus::Context::RecordTransportUnit
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::AddVal("TransportUnitName", $0.name_) IF T
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::AddVal("FillMin", $0.fill_min_) IF T
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::AddVal("FillMax", $0.fill_max_) IF T
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::AddVal("Strategy", $0.strategy_) IF T
  call this.rec_.NewDatum("TransportUnits").cyclus::Datum::Record() IF T
fn cyclus::Context::GetTransportUnit
  ret return(cyclus::TransportUnit::unrestricted()) IF $0 == cyclus::TransportUnit::unrestricted_name_
  throw cyclus::KeyError() IF !$0 == cyclus::TransportUnit::unrestricted_name_ & !has(this.transport_units_,$0) | !$0 == cyclus::TransportUnit::unrestricted_name_ & empty(this.transport_units_)
  ret return(this.transport_units_[$0]) IF !$0 == cyclus::TransportUnit::unrestricted_name_ & !empty(this.transport_units_) & has(this.transport_units_,$0)
fn cyclus::Context::InitSim
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("Handle", $0.handle) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("InitialYear", $0.y0) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("InitialMonth", $0.m0) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("Duration", $0.duration) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("Seed", $0.seed) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("Stride", $0.stride) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("ParentSimId", $0.parent_sim) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("ParentType", $0.parent_type) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("BranchTime", $0.branch_time) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("CyclusVersion", "1.6.0") IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("CyclusVersionDescribe", "1.6") IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("SqliteVersion", "3.45.1") IF T
  call cyclus::version::hdf5() IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("Hdf5Version", cyclus::version::hdf5()) IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("BoostVersion", "1_83") IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("LibXML2Version", "2.9.14") IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::AddVal("CoinCBCVersion", "2.10.11") IF T
  call this.rec_.NewDatum("Info").cyclus::Datum::Record() IF T
  call this.rec_.NewDatum("DecayMode").cyclus::Datum::AddVal("Decay", $0.decay) IF T
  call this.rec_.NewDatum("DecayMode").cyclus::Datum::Record() IF T
  call this.rec_.NewDatum("InfoExplicitInv").cyclus::Datum::AddVal("RecordInventory", $0.explicit_inventory) IF T
  call this.rec_.NewDatum("InfoExplicitInv").cyclus::Datum::AddVal("RecordInventoryCompact", $0.explicit_inventory_compact) IF T
  call this.rec_.NewDatum("InfoExplicitInv").cyclus::Datum::Record() IF T
  call this.rec_.NewDatum("TimeStepDur").cyclus::Datum::AddVal("DurationSecs", $0.dt) IF T
  call this.rec_.NewDatum("TimeStepDur").cyclus::Datum::Record() IF T
  call this.rec_.NewDatum("Epsilon").cyclus::Datum::AddVal("GenericEpsilon", $0.eps) IF T
  call this.rec_.NewDatum("Epsilon").cyclus::Datum::AddVal("ResourceEpsilon", $0.eps_rsrc) IF T
  call this.rec_.NewDatum("Epsilon").cyclus::Datum::Record() IF T
  call this.rec_.NewDatum("XMLPPInfo").cyclus::Datum::AddVal("LibXMLPlusPlusVersion", "2.42.3") IF T
  call this.rec_.NewDatum("XMLPPInfo").cyclus::Datum::Record() IF T
  set this.si_($0) IF T
  call this.ti_.cyclus::Timer::Initialize(this, $0) IF T
  call this.rng_.cyclus::RandomNumberGenerator::Initialize($0) IF T
fn cyclus::Context::time
  ret return(this.ti_.time_) IF T
fn cyclus::Context::NewDatum
  ret return(this.rec_.NewDatum($0)) IF T
fn cyclus::Context::Snapshot
  call this.ti_.cyclus::Timer::Snapshot() IF T
fn cyclus::Context::KillSim
  call this.ti_.cyclus::Timer::KillSim() IF T
fn cyclus::Context::dt
  ret return(this.si_.dt) IF T
fn cyclus::Context::seed
  ret return(this.si_.seed) IF T
fn cyclus::Context::stride
  ret return(this.si_.stride) IF T
fn cyclus::Context::sim_info
  ret return(this.si_) IF T
fn cyclus::Context::solver | 
  set this.solver_(new GreedySolver{false,NULL}) IF !this.solver_
  ret return(new GreedySolver{false,NULL}) IF !this.solver_
  ret return(this.solver_) IF this.solver_
fn cyclus::Context::solver | cyclus::ExchangeSolver *
  set this.solver_($0) IF T
  call $0.cyclus::ExchangeSolver::sim_ctx(this) IF T
fn cyclus::SimInfo::SimInfo | 
  set this.handle("") IF T
  set this.decay("manual") IF T
  set this.duration(0) IF T
  set this.y0(0) IF T
  set this.m0(0) IF T
  set this.parent_sim(boost::uuids::nil_uuid()) IF T
  set this.parent_type("init") IF T
  set this.branch_time(-1) IF T
  set this.dt(kDefaultTimeStepDur) IF T
  set this.explicit_inventory(false) IF T
  set this.explicit_inventory_compact(false) IF T
  set this.seed(kDefaultSeed) IF T
  set this.stride(kDefaultStride) IF T
fn cyclus::SimInfo::SimInfo | int; int; int; std::basic_string<char>
  default 1 = 2010
  default 2 = 1
  default 3 = ""
  set this.handle($3) IF T
  set this.decay("manual") IF T
  set this.duration($0) IF T
  set this.y0($1) IF T
  set this.m0($2) IF T
  set this.parent_sim(boost::uuids::nil_uuid()) IF T
  set this.parent_type("init") IF T
  set this.branch_time(-1) IF T
  set this.dt(kDefaultTimeStepDur) IF T
  set this.explicit_inventory(false) IF T
  set this.explicit_inventory_compact(false) IF T
  set this.seed(kDefaultSeed) IF T
  set this.stride(kDefaultStride) IF T
fn cyclus::SimInfo::SimInfo | int; int; int; std::basic_string<char>; std::basic_string<char>
  set this.handle($3) IF T
  set this.decay($4) IF T
  set this.duration($0) IF T
  set this.y0($1) IF T
  set this.m0($2) IF T
  set this.parent_sim(boost::uuids::nil_uuid()) IF T
  set this.parent_type("init") IF T
  set this.branch_time(-1) IF T
  set this.dt(kDefaultTimeStepDur) IF T
  set this.explicit_inventory(false) IF T
  set this.explicit_inventory_compact(false) IF T
  set this.seed(kDefaultSeed) IF T
  set this.stride(kDefaultStride) IF T
fn cyclus::SimInfo::SimInfo | int; boost::uuids::uuid; int; std::basic_string<char>; std::basic_string<char>
  default 4 = ""
  set this.handle($4) IF T
  set this.decay("manual") IF T
  set this.duration($0) IF T
  set this.y0(-1) IF T
  set this.m0(-1) IF T
  set this.parent_sim($1) IF T
  set this.parent_type($3) IF T
  set this.branch_time($2) IF T
  set this.dt(kDefaultTimeStepDur) IF T
  set this.explicit_inventory(false) IF T
  set this.explicit_inventory_compact(false) IF T
  set this.seed(kDefaultSeed) IF T
  set this.stride(kDefaultStride) IF T
fn cyclus::SimInit::LoadRecipes
  [for this.b_.Query("Recipes",NULL).rows] [for this.b_.Query("Compositions",[Cond{"QualId","==",this.b_.Query("Recipes",NULL).GetVal("QualId",idx(this.b_.Query("Recipes",NULL).rows),of(int))}]).rows] put @map<int, double>.put(this.b_.Query("Compositions",[Cond{"QualId","==",this.b_.Query("Recipes",NULL).GetVal("QualId",idx(this.b_.Query("Recipes",NULL).rows),of(int))}]).GetVal("NucId",idx(this.b_.Query("Compositions",[Cond{"QualId","==",this.b_.Query("Recipes",NULL).GetVal("QualId",idx(this.b_.Query("Recipes",NULL).rows),of(int))}]).rows),of(int)), this.b_.Query("Compositions",[Cond{"QualId","==",this.b_.Query("Recipes",NULL).GetVal("QualId",idx(this.b_.Query("Recipes",NULL).rows),of(int))}]).GetVal("MassFrac",idx(this.b_.Query("Compositions",[Cond{"QualId","==",this.b_.Query("Recipes",NULL).GetVal("QualId",idx(this.b_.Query("Recipes",NULL).rows),of(int))}]).rows),of(double))) IF T
  [for this.b_.Query("Recipes",NULL).rows] call cyclus::Composition::CreateFromMass(@map<int, double>) IF T
  [for this.b_.Query("Recipes",NULL).rows] set cyclus::Composition::CreateFromMass(@map<int, double>).recorded_(true) IF T
  [for this.b_.Query("Recipes",NULL).rows] set cyclus::Composition::CreateFromMass(@map<int, double>).id_(this.b_.Query("Recipes",NULL).GetVal("QualId",idx(this.b_.Query("Recipes",NULL).rows),of(int))) IF T
  [for this.b_.Query("Recipes",NULL).rows] call this.ctx_.cyclus::Context::AddRecipe(this.b_.Query("Recipes",NULL).GetVal("Recipe",idx(this.b_.Query("Recipes",NULL).rows),of(std::basic_string<char>)), cyclus::Composition::CreateFromMass(@map<int, double>)) IF T
