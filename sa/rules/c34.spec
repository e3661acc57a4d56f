fn cyclus::toolkit::AgentManaged::AgentManaged
  default 0 = NULL
  set this.agent_($0) IF T
fn cyclus::toolkit::AgentManaged::agent
  ret return(this.agent_) IF T
fn cyclus::toolkit::Builder::Builder
  default 0 = NULL
  set this.agent_($0) IF T
  set this.producers_(set{}) IF T
fn cyclus::toolkit::Builder::~Builder
fn cyclus::toolkit::Builder::Register
  add this.producers_.add($0) IF !has(this.producers_,$0)
fn cyclus::toolkit::Builder::Unregister
  del this.producers_.erase($0) IF has(this.producers_,$0)
fn cyclus::toolkit::Builder::producers
  ret return(this.producers_) IF T
fn cyclus::toolkit::BuildOrder::BuildOrder
  set this.number($0) IF T
  set this.builder($1) IF T
  set this.producer($2) IF T
fn cyclus::toolkit::BuildingManager::MakeBuildDecision
  [for this.builders_] [for elem(this.builders_).producers_] add @ProgTranslatorContext.obj_coeffs.add(elem(elem(this.builders_).producers_).commodities_[$0].cost) IF $1 > 0 & has(elem(elem(this.builders_).producers_).commodities_,$0)
  [for this.builders_] [for elem(this.builders_).producers_] call @CoinPackedVector.CoinPackedVector::insert(~, elem(elem(this.builders_).producers_).commodities_[$0].capacity) IF $1 > 0 & has(elem(elem(this.builders_).producers_).commodities_,$0)
  [for this.builders_] [for elem(this.builders_).producers_] add @ProgTranslatorContext.col_lbs.add(0) IF $1 > 0 & has(elem(elem(this.builders_).producers_).commodities_,$0)
  [for this.builders_] [for elem(this.builders_).producers_] add @ProgTranslatorContext.col_ubs.add(@OsiCbcSolverInterface.getInfinity()) IF $1 > 0 & has(elem(elem(this.builders_).producers_).commodities_,$0)
  [for this.builders_] [for elem(this.builders_).producers_] put @map<toolkit::CommodityProducer *, toolkit::Builder *>.put(elem(elem(this.builders_).producers_), elem(this.builders_)) IF $1 > 0 & has(elem(elem(this.builders_).producers_).commodities_,$0)
  [for this.builders_] [for elem(this.builders_).producers_] put @map<int, toolkit::CommodityProducer *>.put(~, elem(elem(this.builders_).producers_)) IF $1 > 0 & has(elem(elem(this.builders_).producers_).commodities_,$0)
  add @ProgTranslatorContext.row_ubs.add(@OsiCbcSolverInterface.getInfinity()) IF $1 > 0
  add @ProgTranslatorContext.row_lbs.add($1) IF $1 > 0
  call @ProgTranslatorContext.m.CoinPackedMatrix::setDimensions(0, size(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')))) IF $1 > 0
  call @ProgTranslatorContext.m.CoinPackedMatrix::appendRow(@CoinPackedVector) IF $1 > 0
  call @OsiCbcSolverInterface.OsiCbcSolverInterface::setObjSense(1) IF $1 > 0
  call @OsiCbcSolverInterface.OsiCbcSolverInterface::loadProblem(@ProgTranslatorContext.m, fold(this.builders_; @ProgTranslatorContext.col_lbs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~'))[0], fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~'))[0], fold(this.builders_; @ProgTranslatorContext.obj_coeffs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~'))[0], @ProgTranslatorContext.row_lbs[0], @ProgTranslatorContext.row_ubs[0]) IF $1 > 0
  [for fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~'))] call @OsiCbcSolverInterface.OsiCbcSolverInterface::setInteger(idx(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')))) IF $1 > 0
  call @OsiCbcSolverInterface.OsiCbcSolverInterface::initialSolve() IF $1 > 0
  call @OsiCbcSolverInterface.OsiCbcSolverInterface::branchAndBound() IF $1 > 0
  [for fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~'))] add @vector<toolkit::BuildOrder>.add(BuildOrder{@OsiCbcSolverInterface.getColSolution()[idx(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')))],fold(this.builders_; @map<toolkit::CommodityProducer *, toolkit::Builder *>; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~'))[fold(this.builders_; @map<int, toolkit::CommodityProducer *>; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~'))[idx(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')))]],fold(this.builders_; @map<int, toolkit::CommodityProducer *>; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~'))[idx(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')))]}) IF $1 > 0 & @OsiCbcSolverInterface.getColSolution()[idx(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')))] >= 1
  ret return(fold(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')); @vector<toolkit::BuildOrder>; !@OsiCbcSolverInterface.getColSolution()[idx(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')))] >= 1:~ ; @OsiCbcSolverInterface.getColSolution()[idx(fold(this.builders_; @ProgTranslatorContext.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):~')))] >= 1:~')) IF $1 > 0
  ret return(@vector<toolkit::BuildOrder>) IF !$1 > 0
  carry (fold(elem(this.builders_).producers_; 0; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):(~+1))+~)
  carry fold(this.builders_; 0; (fold(elem(this.builders_).producers_; 0; !has(elem(elem(this.builders_).producers_).commodities_,$0):~ ; has(elem(elem(this.builders_).producers_).commodities_,$0):(~+1))+~))
fn cyclus::toolkit::BuildingManager::SetUp_
  [for this.builders_] [for elem(this.builders_).producers_] add $1.obj_coeffs.add(elem(elem(this.builders_).producers_).commodities_[$4].cost) IF has(elem(elem(this.builders_).producers_).commodities_,$4)
  [for this.builders_] [for elem(this.builders_).producers_] call @CoinPackedVector.CoinPackedVector::insert(~, elem(elem(this.builders_).producers_).commodities_[$4].capacity) IF has(elem(elem(this.builders_).producers_).commodities_,$4)
  [for this.builders_] [for elem(this.builders_).producers_] add $1.col_lbs.add(0) IF has(elem(elem(this.builders_).producers_).commodities_,$4)
  [for this.builders_] [for elem(this.builders_).producers_] add $1.col_ubs.add($0.getInfinity()) IF has(elem(elem(this.builders_).producers_).commodities_,$4)
  [for this.builders_] [for elem(this.builders_).producers_] put $2.put(elem(elem(this.builders_).producers_), elem(this.builders_)) IF has(elem(elem(this.builders_).producers_).commodities_,$4)
  [for this.builders_] [for elem(this.builders_).producers_] put $3.put(~, elem(elem(this.builders_).producers_)) IF has(elem(elem(this.builders_).producers_).commodities_,$4)
  add $1.row_ubs.add($0.getInfinity()) IF T
  add $1.row_lbs.add($5) IF T
  call $1.m.CoinPackedMatrix::setDimensions(0, size(fold(this.builders_; $1.col_ubs; fold(elem(this.builders_).producers_; ~; !has(elem(elem(this.builders_).producers_).commodities_,$4):~ ; has(elem(elem(this.builders_).producers_).commodities_,$4):~')))) IF T
  call $1.m.CoinPackedMatrix::appendRow(@CoinPackedVector) IF T
  carry (fold(elem(this.builders_).producers_; 0; !has(elem(elem(this.builders_).producers_).commodities_,$4):~ ; has(elem(elem(this.builders_).producers_).commodities_,$4):(~+1))+~)
  carry fold(this.builders_; 0; (fold(elem(this.builders_).producers_; 0; !has(elem(elem(this.builders_).producers_).commodities_,$4):~ ; has(elem(elem(this.builders_).producers_).commodities_,$4):(~+1))+~))
fn cyclus::toolkit::BuildingManager::Solve_
  call $0.OsiCbcSolverInterface::setObjSense(1) IF T
  call $0.OsiCbcSolverInterface::loadProblem($1.m, $1.col_lbs[0], $1.col_ubs[0], $1.obj_coeffs[0], $1.row_lbs[0], $1.row_ubs[0]) IF T
  [for $1.col_ubs] call $0.OsiCbcSolverInterface::setInteger(idx($1.col_ubs)) IF T
  call $0.OsiCbcSolverInterface::initialSolve() IF T
  call $0.OsiCbcSolverInterface::branchAndBound() IF T
  [for $1.col_ubs] add $4.add(BuildOrder{$0.getColSolution()[idx($1.col_ubs)],$2[$3[idx($1.col_ubs)]],$3[idx($1.col_ubs)]}) IF $0.getColSolution()[idx($1.col_ubs)] >= 1
fn cyclus::toolkit::BuildingManager::BuildingManager
  default 0 = NULL
  set this.agent_($0) IF T
  set this.builders_(set{}) IF T
fn cyclus::toolkit::BuildingManager::Register
  add this.builders_.add($0) IF !has(this.builders_,$0)
fn cyclus::toolkit::BuildingManager::Unregister
  del this.builders_.erase($0) IF has(this.builders_,$0)
fn cyclus::toolkit::BuildingManager::builders
  ret return(this.builders_) IF T
fn cyclus::toolkit::Commodity::Commodity | 
  set this.name_("") IF T
fn cyclus::toolkit::Commodity::Commodity | std::basic_string<char>
  set this.name_($0) IF T
fn cyclus::toolkit::Commodity::name
  ret return(this.name_) IF T
fn cyclus::toolkit::Commodity::operator==
  ret return(true) IF $0.name_ == this.name_
fn cyclus::toolkit::Commodity::operator!=
  ret return(true) IF !$0 == this
fn cyclus::toolkit::CommodityCompare::operator()
  ret return(true) IF lt($0.name_,$1.name_)
fn cyclus::toolkit::CommodInfo::CommodInfo
  default 0 = 0
  default 1 = cyclus::kModifierLimit
  set this.capacity($0) IF T
  set this.cost($1) IF T
fn cyclus::toolkit::CommodityProducer::CommodityProducer
  default 0 = 0
  default 1 = cyclus::kModifierLimit
  default 2 = NULL
  set this.agent_($2) IF T
  set this.commodities_(map{}) IF T
  set this.default_capacity_($0) IF T
  set this.default_cost_($1) IF T
fn cyclus::toolkit::CommodityProducer::~CommodityProducer
fn cyclus::toolkit::CommodityProducer::ProducedCommodities
  [for this.commodities_] add @set<toolkit::Commodity, toolkit::CommodityCompare>.add(elem(this.commodities_).first) IF !has(@set<toolkit::Commodity, toolkit::CommodityCompare>,elem(this.commodities_).first)
  ret return(@set<toolkit::Commodity, toolkit::CommodityCompare>) IF T
fn cyclus::toolkit::CommodityProducer::Copy
  [for $0.commodities_] add @set<toolkit::Commodity, toolkit::CommodityCompare>.add(elem($0.commodities_).first) IF !has(@set<toolkit::Commodity, toolkit::CommodityCompare>,elem($0.commodities_).first)
  [for fold($0.commodities_; @set<toolkit::Commodity, toolkit::CommodityCompare>; ~')] put this.commodities_.put(elem(@set<toolkit::Commodity, toolkit::CommodityCompare>), CommodInfo{this.default_capacity_,this.default_cost_}) IF !has(this.commodities_,elem(fold($0.commodities_; @set<toolkit::Commodity, toolkit::CommodityCompare>; ~')))
  [for fold($0.commodities_; @set<toolkit::Commodity, toolkit::CommodityCompare>; ~')] set ~this.commodities_'[elem(@set<toolkit::Commodity, toolkit::CommodityCompare>)].capacity($0.commodities_[elem(@set<toolkit::Commodity, toolkit::CommodityCompare>)].capacity) IF T
  [for fold($0.commodities_; @set<toolkit::Commodity, toolkit::CommodityCompare>; ~')] set ~this.commodities_'[elem(@set<toolkit::Commodity, toolkit::CommodityCompare>)].cost($0.commodities_[elem(@set<toolkit::Commodity, toolkit::CommodityCompare>)].cost) IF T
fn cyclus::toolkit::CommodityProducer::Produces
  ret return(true) IF has(this.commodities_,$0)
fn cyclus::toolkit::CommodityProducer::Capacity
  ret return(this.commodities_[$0].capacity) IF T
fn cyclus::toolkit::CommodityProducer::Cost
  ret return(this.commodities_[$0].cost) IF T
fn cyclus::toolkit::CommodityProducer::SetCapacity
  set this.commodities_[$0].capacity($1) IF T
fn cyclus::toolkit::CommodityProducer::SetCost
  set this.commodities_[$0].cost($1) IF T
fn cyclus::toolkit::CommodityProducer::Add | const cyclus::toolkit::Commodity &
  put this.commodities_.put($0, CommodInfo{this.default_capacity_,this.default_cost_}) IF !has(this.commodities_,$0)
fn cyclus::toolkit::CommodityProducer::Add | const cyclus::toolkit::Commodity &; const cyclus::toolkit::CommodInfo &
  put this.commodities_.put($0, $1) IF !has(this.commodities_,$0)
fn cyclus::toolkit::CommodityProducer::Rm
  del this.commodities_.erase($0) IF has(this.commodities_,$0)
fn cyclus::toolkit::CommodityProducerManager::TotalCapacity
  ret return(fold(this.producers_; 0; !has(elem(this.producers_).commodities_,$0):~ ; has(elem(this.producers_).commodities_,$0):(elem(this.producers_).commodities_[$0].capacity+~))) IF T
fn cyclus::toolkit::CommodityProducerManager::CommodityProducerManager
  default 0 = NULL
  set this.agent_($0) IF T
  set this.producers_(set{}) IF T
fn cyclus::toolkit::CommodityProducerManager::~CommodityProducerManager
fn cyclus::toolkit::CommodityProducerManager::Register
  add this.producers_.add($0) IF !has(this.producers_,$0)
fn cyclus::toolkit::CommodityProducerManager::Unregister
  del this.producers_.erase($0) IF has(this.producers_,$0)
fn cyclus::toolkit::CommodityProducerManager::producers
  ret return(this.producers_) IF T
fn cyclus::toolkit::SupplyDemandManager::Supply
  [for this.managers_] call elem(this.managers_).cyclus::toolkit::CommodityProducerManager::TotalCapacity(~) IF T
  ret return(fold(this.managers_; 0; (elem(this.managers_).TotalCapacity(~)+~))) IF T
fn cyclus::toolkit::SupplyDemandManager::SupplyDemandManager
  default 0 = NULL
  set this.agent_($0) IF T
  set this.demand_functions_(map{}) IF T
  set this.managers_(set{}) IF T
fn cyclus::toolkit::SupplyDemandManager::~SupplyDemandManager
fn cyclus::toolkit::SupplyDemandManager::RegisterCommodity
  put this.demand_functions_.put($0, $1) IF !has(this.demand_functions_,$0)
fn cyclus::toolkit::SupplyDemandManager::ManagesCommodity
  ret return(true) IF has(this.demand_functions_,$0)
fn cyclus::toolkit::SupplyDemandManager::RegisterProducerManager
  add this.managers_.add($0) IF !has(this.managers_,$0)
fn cyclus::toolkit::SupplyDemandManager::UnregisterProducerManager
  del this.managers_.erase($0) IF has(this.managers_,$0)
fn cyclus::toolkit::SupplyDemandManager::Demand
  call this.demand_functions_[$0].cyclus::toolkit::SymFunction::value($1) IF T
  ret return(this.demand_functions_[$0].value($1)) IF T
fn cyclus::toolkit::SupplyDemandManager::DemandFunction
  ret return(this.demand_functions_[$0]) IF T
fn cyclus::toolkit::LinFunctionFactory::GetFunctionPtr
  ret return(new LinearFunction{read($0),read(next($0))}) IF T
fn cyclus::toolkit::ExpFunctionFactory::GetFunctionPtr
  ret return(new ExponentialFunction{read($0),read(next($0)),read(next(next($0)))}) IF !next(next($0)).eof()
  ret return(new ExponentialFunction{read($0),read(next($0)),0}) IF next(next($0)).eof()
fn cyclus::toolkit::PiecewiseFunctionFactory::PiecewiseFunctionFactory
  set this.function_(new PiecewiseFunction{}) IF T
fn cyclus::toolkit::PiecewiseFunctionFactory::GetFunctionPtr
  default 0 = ""
  ret return(this.function_) IF empty($0)
  throw cyclus::Error() IF !empty($0)
fn cyclus::toolkit::PiecewiseFunctionFactory::AddFunction
  default 1 = 0
  default 2 = true
  throw cyclus::Error() IF !($1-this.function_.functions_.back().xoffset) > 0 & !empty(this.function_.functions_)
  call this.function_.cyclus::toolkit::PiecewiseFunction::value($1) IF $2 & ($1-this.function_.functions_.back().xoffset) > 0 | $2 & empty(this.function_.functions_)
  call $0.cyclus::toolkit::SymFunction::value(0) IF $2 & ($1-this.function_.functions_.back().xoffset) > 0 | $2 & empty(this.function_.functions_)
  add this.function_.functions_.add(PiecewiseFunctionInfo{$0,$1,(-$0.value(0)+this.function_.value($1))}) IF $2 & ($1-this.function_.functions_.back().xoffset) > 0 | $2 & empty(this.function_.functions_)
  add this.function_.functions_.add(PiecewiseFunctionInfo{$0,$1,0}) IF !$2 & ($1-this.function_.functions_.back().xoffset) > 0 | !$2 & empty(this.function_.functions_)
  seq 1<3 2<3
fn cyclus::toolkit::BasicFunctionFactory::BasicFunctionFactory
  put cyclus::toolkit::BasicFunctionFactory::enum_names_.put("lin", cyclus::toolkit::BasicFunctionFactory::LIN) IF empty(cyclus::toolkit::BasicFunctionFactory::enum_names_)
  put cyclus::toolkit::BasicFunctionFactory::enum_names_.put("linear", cyclus::toolkit::BasicFunctionFactory::LIN) IF empty(cyclus::toolkit::BasicFunctionFactory::enum_names_)
  put cyclus::toolkit::BasicFunctionFactory::enum_names_.put("exp", cyclus::toolkit::BasicFunctionFactory::EXP) IF empty(cyclus::toolkit::BasicFunctionFactory::enum_names_)
  put cyclus::toolkit::BasicFunctionFactory::enum_names_.put("exponential", cyclus::toolkit::BasicFunctionFactory::EXP) IF empty(cyclus::toolkit::BasicFunctionFactory::enum_names_)
fn cyclus::toolkit::BasicFunctionFactory::GetFunctionPtr
  throw cyclus::Error() IF !cyclus::toolkit::BasicFunctionFactory::enum_names_[$0] == cyclus::toolkit::BasicFunctionFactory::EXP & !cyclus::toolkit::BasicFunctionFactory::enum_names_[$0] == cyclus::toolkit::BasicFunctionFactory::LIN | !has(cyclus::toolkit::BasicFunctionFactory::enum_names_,$0)
  call @toolkit::LinFunctionFactory.cyclus::toolkit::LinFunctionFactory::GetFunctionPtr($1) IF cyclus::toolkit::BasicFunctionFactory::enum_names_[$0] == cyclus::toolkit::BasicFunctionFactory::LIN & has(cyclus::toolkit::BasicFunctionFactory::enum_names_,$0)
  ret return(@toolkit::LinFunctionFactory.GetFunctionPtr($1)) IF cyclus::toolkit::BasicFunctionFactory::enum_names_[$0] == cyclus::toolkit::BasicFunctionFactory::LIN & has(cyclus::toolkit::BasicFunctionFactory::enum_names_,$0)
  call @toolkit::ExpFunctionFactory.cyclus::toolkit::ExpFunctionFactory::GetFunctionPtr($1) IF cyclus::toolkit::BasicFunctionFactory::enum_names_[$0] == cyclus::toolkit::BasicFunctionFactory::EXP & has(cyclus::toolkit::BasicFunctionFactory::enum_names_,$0)
  ret return(@toolkit::ExpFunctionFactory.GetFunctionPtr($1)) IF cyclus::toolkit::BasicFunctionFactory::enum_names_[$0] == cyclus::toolkit::BasicFunctionFactory::EXP & has(cyclus::toolkit::BasicFunctionFactory::enum_names_,$0)
fn cyclus::toolkit::SymbFunctionFactory::~SymbFunctionFactory
fn cyclus::toolkit::LinearFunction::value
  ret return((($0*this.slope_)+this.intercept_)) IF T
fn cyclus::toolkit::LinearFunction::Print
  ret return("y = " ++ this.slope_ ++ " * x + " ++ this.intercept_) IF T
fn cyclus::toolkit::ExponentialFunction::value
  ret return(((exp(($0*this.exponent_))*this.constant_)+this.intercept_)) IF T
fn cyclus::toolkit::ExponentialFunction::Print
  ret return("y = " ++ this.constant_ ++ " * exp(" ++ this.exponent_ ++ " * x) + " ++ this.intercept_) IF T
fn cyclus::toolkit::PiecewiseFunction::value
  call (iters(while)+this.functions_.begin()-1).function.cyclus::toolkit::SymFunction::value(($0-(iters(while)+this.functions_.begin()-1).xoffset)) IF ($0-this.functions_[0].xoffset) >= 0 & !empty(this.functions_)
  ret return(0) IF !($0-this.functions_[0].xoffset) >= 0 | empty(this.functions_)
  ret return(((iters(while)+this.functions_.begin()-1).function.value(($0-(iters(while)+this.functions_.begin()-1).xoffset))+(iters(while)+this.functions_.begin()-1).yoffset)) IF ($0-this.functions_[0].xoffset) >= 0 & !empty(this.functions_)
  leave !($0-~.xoffset) >= 0 | this.functions_.end() == ~
fn cyclus::toolkit::PiecewiseFunction::Print
  [for this.functions_] call elem(this.functions_).function.cyclus::toolkit::SymFunction::Print() IF T
  ret return(fold(this.functions_; "Piecewise Function comprised of: "; ~ ++ " * " ++ elem(this.functions_).function.Print() ++ " starting at coordinate (" ++ elem(this.functions_).xoffset ++ "," ++ elem(this.functions_).yoffset ++ ")")) IF T
fn cyclus::toolkit::LinearFunction::LinearFunction
  default 1 = 0
  set this.slope_($0) IF T
  set this.intercept_($1) IF T
fn cyclus::toolkit::ExponentialFunction::ExponentialFunction
  default 2 = 0
  set this.constant_($0) IF T
  set this.exponent_($1) IF T
  set this.intercept_($2) IF T
fn cyclus::toolkit::PiecewiseFunction::PiecewiseFunctionInfo::PiecewiseFunctionInfo
  default 1 = 0
  default 2 = 0
  set this.function($0) IF T
  set this.xoffset($1) IF T
  set this.yoffset($2) IF T
fn cyclus::toolkit::PiecewiseFunction::PiecewiseFunctionInfo::PiecewiseFunctionInfo
  default 1 = 0
  default 2 = 0
  set this.function($0) IF T
  set this.xoffset($1) IF T
  set this.yoffset($2) IF T
fn cyclus::toolkit::CommodityRecipeContext::AddInCommod
  add this.in_commods_.add($0) IF !has(this.in_commods_,$0)
  add this.out_commods_.add($2) IF !has(this.out_commods_,$2)
  put this.out_commod_map_.put($0, $2) IF T
  put this.in_recipes_.put($0, $1) IF T
  put this.out_recipes_.put($0, $3) IF T
fn cyclus::toolkit::CommodityRecipeContext::AddRsrc
  put this.rsrc_commod_map_.put($1.obj_id_, $0) IF T
fn cyclus::toolkit::CommodityRecipeContext::RemoveRsrc
  del this.rsrc_commod_map_.erase($0.obj_id_) IF has(this.rsrc_commod_map_,$0.obj_id_)
fn cyclus::toolkit::CommodityRecipeContext::UpdateRsrc
  put this.rsrc_commod_map_.put($1.obj_id_, $0) IF T
fn cyclus::toolkit::CommodityRecipeContext::UpdateInRec
  put this.in_recipes_.put($0, $1) IF T
fn cyclus::toolkit::CommodityRecipeContext::Clone
  ret return(new this) IF T
fn cyclus::toolkit::CommodityRecipeContext::InfileToDb
  [for range(size($0.current_node_.find("fuel")))] call $1.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::AddVal("in_commod", $0.SubTree("fuel",idx(range(size($0.current_node_.find("fuel"))))).GetString("incommodity")) IF T
  [for range(size($0.current_node_.find("fuel")))] call $1.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::AddVal("in_recipe", $0.SubTree("fuel",idx(range(size($0.current_node_.find("fuel"))))).GetString("inrecipe")) IF T
  [for range(size($0.current_node_.find("fuel")))] call $1.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::AddVal("out_commod", $0.SubTree("fuel",idx(range(size($0.current_node_.find("fuel"))))).GetString("outcommodity")) IF T
  [for range(size($0.current_node_.find("fuel")))] call $1.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::AddVal("out_recipe", $0.SubTree("fuel",idx(range(size($0.current_node_.find("fuel"))))).GetString("outrecipe")) IF T
  [for range(size($0.current_node_.find("fuel")))] call $1.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::Record() IF T
fn cyclus::toolkit::CommodityRecipeContext::InitFrom
  [for $0.Query("CommodityRecipeContext_inoutmap",NULL).rows] add this.in_commods_.add($0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("in_commod",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>))) IF !has(this.in_commods_,$0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("in_commod",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>)))
  [for $0.Query("CommodityRecipeContext_inoutmap",NULL).rows] add this.out_commods_.add($0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("out_commod",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>))) IF !has(this.out_commods_,$0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("out_commod",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>)))
  [for $0.Query("CommodityRecipeContext_inoutmap",NULL).rows] put this.out_commod_map_.put($0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("in_commod",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>)), $0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("out_commod",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>))) IF T
  [for $0.Query("CommodityRecipeContext_inoutmap",NULL).rows] put this.in_recipes_.put($0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("in_commod",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>)), $0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("in_recipe",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>))) IF T
  [for $0.Query("CommodityRecipeContext_inoutmap",NULL).rows] put this.out_recipes_.put($0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("in_commod",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>)), $0.Query("CommodityRecipeContext_inoutmap",NULL).GetVal("out_recipe",idx($0.Query("CommodityRecipeContext_inoutmap",NULL).rows),of(std::basic_string<char>))) IF T
  [for $0.Query("CommodityRecipeContext_resmap",NULL).rows] put this.rsrc_commod_map_.put($0.Query("CommodityRecipeContext_resmap",NULL).GetVal("res_id",idx($0.Query("CommodityRecipeContext_resmap",NULL).rows),of(int)), $0.Query("CommodityRecipeContext_resmap",NULL).GetVal("commod",idx($0.Query("CommodityRecipeContext_resmap",NULL).rows),of(std::basic_string<char>))) IF T
fn cyclus::toolkit::CommodityRecipeContext::Snapshot
  [for this.in_commods_] call $0.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::AddVal("in_commod", elem(this.in_commods_)) IF T
  [for this.in_commods_] call $0.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::AddVal("in_recipe", this.in_recipes_[elem(this.in_commods_)]) IF T
  [for this.in_commods_] call $0.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::AddVal("out_commod", this.out_commod_map_[elem(this.in_commods_)]) IF T
  [for this.in_commods_] call $0.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::AddVal("out_recipe", this.out_recipes_[elem(this.in_commods_)]) IF T
  [for this.in_commods_] call $0.NewDatum("CommodityRecipeContext_inoutmap").cyclus::Datum::Record() IF T
  [for this.rsrc_commod_map_] call $0.NewDatum("CommodityRecipeContext_resmap").cyclus::Datum::AddVal("commod", elem(this.rsrc_commod_map_).second) IF T
  [for this.rsrc_commod_map_] call $0.NewDatum("CommodityRecipeContext_resmap").cyclus::Datum::AddVal("res_id", elem(this.rsrc_commod_map_).first) IF T
  [for this.rsrc_commod_map_] call $0.NewDatum("CommodityRecipeContext_resmap").cyclus::Datum::Record() IF T
fn cyclus::toolkit::CommodityRecipeContext::in_commods
  ret return(this.in_commods_) IF T
fn cyclus::toolkit::CommodityRecipeContext::out_commods
  ret return(this.out_commods_) IF T
fn cyclus::toolkit::CommodityRecipeContext::out_commod
  ret return(this.out_commod_map_[$0]) IF T
fn cyclus::toolkit::CommodityRecipeContext::in_recipe
  ret return(this.in_recipes_[$0]) IF T
fn cyclus::toolkit::CommodityRecipeContext::out_recipe
  ret return(this.out_recipes_[$0]) IF T
fn cyclus::toolkit::CommodityRecipeContext::commod
  ret return(this.rsrc_commod_map_[$0.obj_id_]) IF T
fn cyclus::toolkit::CommodityRecipeContext::operator==
  ret return(true) IF size($0.in_commods_) == size(this.in_commods_) & size($0.in_recipes_) == size(this.in_recipes_) & size($0.out_commod_map_) == size(this.out_commod_map_) & size($0.out_commods_) == size(this.out_commods_) & size($0.out_recipes_) == size(this.out_recipes_) & size($0.rsrc_commod_map_) == size(this.rsrc_commod_map_) & std::equal(this.in_recipes_.begin(),this.in_recipes_.end(),$0.in_recipes_.begin()) & std::equal(this.out_commod_map_.begin(),this.out_commod_map_.end(),$0.out_commod_map_.begin()) & std::equal(this.out_recipes_.begin(),this.out_recipes_.end(),$0.out_recipes_.begin()) & std::equal(this.rsrc_commod_map_.begin(),this.rsrc_commod_map_.end(),$0.rsrc_commod_map_.begin())
fn cyclus::toolkit::CommodityRecipeContext::operator!=
  ret return(true) IF !size($0.in_commods_) == size(this.in_commods_) | !size($0.in_recipes_) == size(this.in_recipes_) | !size($0.out_commod_map_) == size(this.out_commod_map_) | !size($0.out_commods_) == size(this.out_commods_) | !size($0.out_recipes_) == size(this.out_recipes_) | !size($0.rsrc_commod_map_) == size(this.rsrc_commod_map_) | !std::equal(this.in_recipes_.begin(),this.in_recipes_.end(),$0.in_recipes_.begin()) | !std::equal(this.out_commod_map_.begin(),this.out_commod_map_.end(),$0.out_commod_map_.begin()) | !std::equal(this.out_recipes_.begin(),this.out_recipes_.end(),$0.out_recipes_.begin()) | !std::equal(this.rsrc_commod_map_.begin(),this.rsrc_commod_map_.end(),$0.rsrc_commod_map_.begin())
fn cyclus::toolkit::FacilityCost::EnumerateCosts
  ret return(this.capital_cost_) IF T
fn cyclus::toolkit::FacilityCost::FacilityCost
  default 0 = 0
  set this.capital_cost_($0) IF T
fn cyclus::toolkit::FacilityCost::setCapitalCost
  set this.capital_cost_($0) IF T
