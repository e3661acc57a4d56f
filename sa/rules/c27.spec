fn cyclus::XMLFileLoader::LoadSim
  stop: XMLFileLoader::(Load|Build|Process|master)
  * call this.cyclus::XMLFileLoader::master_schema() IF T
  call this.parser_.cyclus::XMLParser::Validate(this.master_schema()) IF T
  call this.cyclus::XMLFileLoader::LoadControlParams() IF T
  call this.cyclus::XMLFileLoader::LoadSolver() IF T
  call this.cyclus::XMLFileLoader::LoadRecipes() IF T
  call this.cyclus::XMLFileLoader::LoadPackages() IF T
  call this.cyclus::XMLFileLoader::LoadTransportUnits() IF T
  call this.cyclus::XMLFileLoader::LoadSpecs() IF T
  call this.cyclus::XMLFileLoader::LoadInitialAgents() IF T
  call cyclus::SimInit::Snapshot(this.ctx_) IF T
  call this.rec_.cyclus::Recorder::Flush() IF T
  seq 0<8 2<5 2<8 2<9 7<8 8<9
fn cyclus::XMLFileLoader::XMLFileLoader
  default 3 = ""
  default 4 = "none"
  default 5 = false
  set this.rec_($0) IF T
  set this.ti_(Timer{}) IF T
  set this.b_($1) IF T
  set this.specs_(map{}) IF T
  set this.parser_(shared_ptr{}) IF T
  set this.ctx_(new Context{Timer{},$0}) IF T
  set this.schema_path_($2) IF T
  set this.file_($3) IF T
  set this.format_($4) IF T
  throw cyclus::IOError() IF !$3 & $4 == "none"
  call cyclus::toolkit::JsonToXml($3.rdbuf()) IF $3 & $4 == "json" & $4 == "none" | $3 & $4 == "none" & path{$3}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml($3) IF !$4 == "none" & empty(".json") | $4 == "json" & !$4 == "none"
  call cyclus::toolkit::PyToJson($3.rdbuf()) IF $3 & !$4 == "json" & $4 == "none" & !path{$3}.extension().string() == ".json" & path{$3}.extension().string() == ".py" | $3 & !$4 == "json" & $4 == "none" & $4 == "py" & !path{$3}.extension().string() == ".json"
  call cyclus::toolkit::PyToJson($3) IF !$4 == "json" & !$4 == "none" & !empty(".json") & empty(".py") | !$4 == "json" & !$4 == "none" & $4 == "py" & !empty(".json")
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($3.rdbuf())) IF $3 & !$4 == "json" & $4 == "none" & !path{$3}.extension().string() == ".json" & path{$3}.extension().string() == ".py" | $3 & !$4 == "json" & $4 == "none" & $4 == "py" & !path{$3}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($3)) IF !$4 == "json" & !$4 == "none" & !empty(".json") & empty(".py") | !$4 == "json" & !$4 == "none" & $4 == "py" & !empty(".json")
  set this.parser_(new XMLParser{}) IF T
  call new XMLParser{}.cyclus::XMLParser::Init($3.rdbuf()') IF $3 & $4 == "none"
  call new XMLParser{}.cyclus::XMLParser::Init($3') IF !$4 == "none"
  set this.ms_print_($5) IF T
  call new XMLParser{}.cyclus::XMLParser::Document() IF !$4 == "none" | $3
  call new XMLParser{}.Document().xmlpp::Document::write_to_stream_formatted(@basic_stringstream<char>) IF !$4 == "none" | $3
  call new Context{Timer{},$0}.rec_.NewDatum("InputFiles").cyclus::Datum::AddVal("Data", Blob{@basic_stringstream<char>}) IF !$4 == "none" | $3
  call new Context{Timer{},$0}.rec_.NewDatum("InputFiles").cyclus::Datum::Record() IF !$4 == "none" | $3
  seq 17<20 18<20
fn cyclus::XMLFileLoader::~XMLFileLoader
  delete delete(this.ctx_) IF this.ctx_
fn cyclus::XMLFileLoader::LoadSolver
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity")))] put @map<basic_string<char>, double>.put(InfileTree{this.parser_}.SubTree("/*/commodity",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))))).GetString("name"), cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/commodity",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))))),"solution_priority",-1,of(double))) IF T
  [for fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~')] set elem(@map<basic_string<char>, double>).second(1) IF !elem(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~')).second >= 1 & !std::max_element(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~').begin(),fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~').end(),SecondLT<pair<basic_string<char>, double>>{}).second >= 1
  [for fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~')] set elem(@map<basic_string<char>, double>).second((std::max_element(@map<basic_string<char>, double>.begin(),@map<basic_string<char>, double>.end(),SecondLT<pair<basic_string<char>, double>>{}).second+1)) IF !elem(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~')).second >= 1 & std::max_element(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~').begin(),fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~').end(),SecondLT<pair<basic_string<char>, double>>{}).second >= 1
  [for fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~')] call this.ctx_.rec_.NewDatum("CommodPriority").cyclus::Datum::AddVal("Commodity", elem(@map<basic_string<char>, double>).first) IF T
  [for fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~')] call this.ctx_.rec_.NewDatum("CommodPriority").cyclus::Datum::AddVal("SolutionPriority", elem(@map<basic_string<char>, double>).second) IF T
  [for fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/commodity"))); @map<basic_string<char>, double>; ~')] call this.ctx_.rec_.NewDatum("CommodPriority").cyclus::Datum::Record() IF T
  call cyclus::Warn("You have set allow_exclusive_orders to False. Many archetypes (e.g., :cycamore:Reactor) will not work as intended with this feature turned off.", of(cyclus::VALUE_WARNING)) IF !cyclus::ExchangeSolver::kDefaultExclusive & !size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1 | !cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control/solver"),"allow_exclusive_orders",cyclus::ExchangeSolver::kDefaultExclusive,of(bool)) & size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  call this.ctx_.rec_.NewDatum("SolverInfo").cyclus::Datum::AddVal("Solver", InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0)) IF size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 & size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  call this.ctx_.rec_.NewDatum("SolverInfo").cyclus::Datum::AddVal("Solver", "greedy") IF !size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 | !size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  call this.ctx_.rec_.NewDatum("SolverInfo").cyclus::Datum::AddVal("ExclusiveOrders", cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control/solver"),"allow_exclusive_orders",cyclus::ExchangeSolver::kDefaultExclusive,of(bool))) IF size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  call this.ctx_.rec_.NewDatum("SolverInfo").cyclus::Datum::AddVal("ExclusiveOrders", cyclus::ExchangeSolver::kDefaultExclusive) IF !size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  call this.ctx_.rec_.NewDatum("SolverInfo").cyclus::Datum::Record() IF T
  call this.ctx_.rec_.NewDatum("GreedySolverInfo").cyclus::Datum::AddVal("Preconditioner", cyclus::OptionalQuery(InfileTree{this.parser_},"/*/control/solver/config/greedy/preconditioner","greedy",of(std::basic_string<char>))) IF !size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 | !size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1 | InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "greedy"
  call this.ctx_.rec_.NewDatum("GreedySolverInfo").cyclus::Datum::Record() IF !size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 | !size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1 | InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "greedy"
  call this.ctx_.rec_.NewDatum("CoinSolverInfo").cyclus::Datum::AddVal("Timeout", cyclus::OptionalQuery(InfileTree{this.parser_},"/*/control/solver/config/coin-or/timeout",-1,of(double))) IF InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "coin-or" & !InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "greedy" & size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 & size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  call this.ctx_.rec_.NewDatum("CoinSolverInfo").cyclus::Datum::AddVal("Verbose", cyclus::OptionalQuery(InfileTree{this.parser_},"/*/control/solver/config/coin-or/verbose",false,of(bool))) IF InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "coin-or" & !InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "greedy" & size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 & size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  call this.ctx_.rec_.NewDatum("CoinSolverInfo").cyclus::Datum::AddVal("Mps", cyclus::OptionalQuery(InfileTree{this.parser_},"/*/control/solver/config/coin-or/mps",false,of(bool))) IF InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "coin-or" & !InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "greedy" & size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 & size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  call this.ctx_.rec_.NewDatum("CoinSolverInfo").cyclus::Datum::Record() IF InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "coin-or" & !InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "greedy" & size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 & size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
  throw cyclus::ValueError() IF !InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "coin-or" & !InfileTree{this.parser_}.SubTree("/*/control/solver").SubTree("config").GetElementName(0) == "greedy" & size(InfileTree{this.parser_}.SubTree("/*/control/solver").current_node_.find("config")) == 1 & size(InfileTree{this.parser_}.current_node_.find("/*/control/solver")) == 1
fn cyclus::XMLFileLoader::ProcessCommodities
  [for $0] set elem($0).second(1) IF !elem($0).second >= 1 & !std::max_element($0.begin(),$0.end(),SecondLT<pair<basic_string<char>, double>>{}).second >= 1
  [for $0] set elem($0).second((std::max_element($0.begin(),$0.end(),SecondLT<pair<basic_string<char>, double>>{}).second+1)) IF !elem($0).second >= 1 & std::max_element($0.begin(),$0.end(),SecondLT<pair<basic_string<char>, double>>{}).second >= 1
fn cyclus::XMLFileLoader::LoadRecipes
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe")))] [for range(size(InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).current_node_.find("nuclide")))] put @map<int, double>.put(pyne::nucname::id(InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).SubTree("nuclide",idx(range(size(InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).current_node_.find("nuclide"))))).GetString("id")), strtod(InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).SubTree("nuclide",idx(range(size(InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).current_node_.find("nuclide"))))).GetString("comp"),NULL)) IF InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "atom" | InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "mass"
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe")))] call cyclus::Composition::CreateFromAtom(@map<int, double>) IF InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "atom"
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe")))] call cyclus::Composition::CreateFromMass(@map<int, double>) IF !InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "atom" & InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "mass"
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe")))] call cyclus::Composition::CreateFromAtom(@map<int, double>).cyclus::Composition::Record(this.ctx_) IF InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "atom"
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe")))] call cyclus::Composition::CreateFromMass(@map<int, double>).cyclus::Composition::Record(this.ctx_) IF !InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "atom" & InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "mass"
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe")))] call this.ctx_.cyclus::Context::AddRecipe(InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("name"), cyclus::Composition::CreateFromAtom(@map<int, double>)) IF InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "atom"
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe")))] call this.ctx_.cyclus::Context::AddRecipe(InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("name"), cyclus::Composition::CreateFromMass(@map<int, double>)) IF !InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "atom" & InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "mass"
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe")))] throw cyclus::IOError() IF !InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "atom" & !InfileTree{this.parser_}.SubTree("/*/recipe",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/recipe"))))).GetString("basis") == "mass"
fn cyclus::XMLFileLoader::LoadPackages
  call this.ctx_.cyclus::Context::RecordPackage(cyclus::Package::unpackaged()) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/package")))] call this.ctx_.cyclus::Context::AddPackage(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/package",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/package"))))),"name","default",of(std::basic_string<char>)), cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/package",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/package"))))),"fill_min",cyclus::cy_eps,of(double)), cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/package",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/package"))))),"fill_max",std::numeric_limits<double>::max(),of(double)), cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/package",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/package"))))),"strategy","first",of(std::basic_string<char>))) IF T
fn cyclus::XMLFileLoader::LoadTransportUnits
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/transportunit")))] call this.ctx_.cyclus::Context::AddTransportUnit(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/transportunit",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/transportunit"))))),"name","default",of(std::basic_string<char>)), cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/transportunit",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/transportunit"))))),"fill_min",0,of(int)), cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/transportunit",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/transportunit"))))),"fill_max",std::numeric_limits<int>::max(),of(int)), cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/transportunit",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/transportunit"))))),"strategy","first",of(std::basic_string<char>))) IF T
fn cyclus::XMLFileLoader::LoadSpecs
  throw cyclus::IOError() IF !this.file_ & this.format_ == "none"
  call cyclus::toolkit::JsonToXml(this.file_.rdbuf()) IF path{this.file_}.extension().string() == ".json" & this.file_ & this.format_ == "none" | this.file_ & this.format_ == "json" & this.format_ == "none"
  call cyclus::toolkit::JsonToXml(this.file_) IF empty(".json") & !this.format_ == "none" | this.format_ == "json" & !this.format_ == "none"
  call cyclus::toolkit::PyToJson(this.file_.rdbuf()) IF !path{this.file_}.extension().string() == ".json" & path{this.file_}.extension().string() == ".py" & this.file_ & !this.format_ == "json" & this.format_ == "none" | !path{this.file_}.extension().string() == ".json" & this.file_ & !this.format_ == "json" & this.format_ == "none" & this.format_ == "py"
  call cyclus::toolkit::PyToJson(this.file_) IF !empty(".json") & !this.format_ == "json" & !this.format_ == "none" & this.format_ == "py" | !empty(".json") & empty(".py") & !this.format_ == "json" & !this.format_ == "none"
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson(this.file_.rdbuf())) IF !path{this.file_}.extension().string() == ".json" & path{this.file_}.extension().string() == ".py" & this.file_ & !this.format_ == "json" & this.format_ == "none" | !path{this.file_}.extension().string() == ".json" & this.file_ & !this.format_ == "json" & this.format_ == "none" & this.format_ == "py"
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson(this.file_)) IF !empty(".json") & !this.format_ == "json" & !this.format_ == "none" & this.format_ == "py" | !empty(".json") & empty(".py") & !this.format_ == "json" & !this.format_ == "none"
  call @XMLParser.cyclus::XMLParser::Init(this.file_.rdbuf()') IF this.file_ & this.format_ == "none"
  call @XMLParser.cyclus::XMLParser::Init(this.file_') IF !this.format_ == "none"
  [for range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))] add @vector<AgentSpec>.add(AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}) IF !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_) & !this.format_ == "none" | !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_) & this.file_
  throw cyclus::ValidationError() IF empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) & !this.format_ == "none" | empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) & this.file_
  [for fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)] put this.specs_.put(elem(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)).alias_, elem(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))) IF !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) & !this.format_ == "none" | !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) & this.file_
fn cyclus::XMLFileLoader::LoadInitialAgents
  put @map<basic_string<char>, basic_string<char>>.put("Region", "/*/region") IF T
  put @map<basic_string<char>, basic_string<char>>.put("Inst", "/*/region/institution") IF T
  put @map<basic_string<char>, basic_string<char>>.put("Facility", "/*/facility") IF T
  [for @map<basic_string<char>, basic_string<char>>'] [for range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>').second)))] call cyclus::DynamicModule::Make(this.ctx_, this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)]) IF T
  [for @map<basic_string<char>, basic_string<char>>'] [for range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>').second)))] call cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)]).cyclus::Agent::InfileToDb(InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))), DbInit{cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)]),true}) IF T
  [for @map<basic_string<char>, basic_string<char>>'] [for range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>').second)))] call cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)]).cyclus::Agent::InfileToDb(InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))), DbInit{cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)])}) IF T
  [for @map<basic_string<char>, basic_string<char>>'] [for range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>').second)))] call this.rec_.cyclus::Recorder::Flush() IF T
  [for @map<basic_string<char>, basic_string<char>>'] [for range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>').second)))] call cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)]).cyclus::Agent::InitFrom(PrefixInjector{CondInjector{this.b_,[Cond{"SimId","==",this.rec_.uuid_}, Cond{"SimTime","==",0}, Cond{"AgentId","==",cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)]).id_}]},"AgentState"}) IF T
  [for @map<basic_string<char>, basic_string<char>>'] [for range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>').second)))] call this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)].cyclus::AgentSpec::Sanitize() IF T
  [for @map<basic_string<char>, basic_string<char>>'] [for range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>').second)))] call cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)]).cyclus::Agent::InitFrom(PrefixInjector{CondInjector{this.b_,[Cond{"SimId","==",this.rec_.uuid_}, Cond{"SimTime","==",0}, Cond{"AgentId","==",cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)]).id_}]},"AgentState" ++ this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)].Sanitize()}) IF T
  [for @map<basic_string<char>, basic_string<char>>'] [for range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>').second)))] call this.ctx_.cyclus::Context::AddPrototype(InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).GetString("name"), cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree(elem(@map<basic_string<char>, basic_string<char>>).second,idx(range(size(InfileTree{this.parser_}.current_node_.find(elem(@map<basic_string<char>, basic_string<char>>).second))))).SubTree("config").GetElementName(0)])) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"])))] call this.ctx_.cyclus::Context::CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).GetString("name"), of(cyclus::Agent)) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"])))] call this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).GetString("name"),of(cyclus::Agent)).cyclus::Agent::Build(NULL) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"])))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution")))] call this.ctx_.cyclus::Context::CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).GetString("name"), of(cyclus::Agent)) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"])))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution")))] call this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).GetString("name"),of(cyclus::Agent)).cyclus::Agent::Build(this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).GetString("name"),of(cyclus::Agent))) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"])))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution")))] call this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).GetString("name"),of(cyclus::Agent)).cyclus::Agent::BuildNotify(this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).GetString("name"),of(cyclus::Agent))) IF this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).GetString("name"),of(cyclus::Agent))
  [for range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"])))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution")))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry")))] [for times(atoi(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).SubTree("initialfacilitylist/entry",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry"))))).GetString("number")))] call this.ctx_.cyclus::Context::CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).SubTree("initialfacilitylist/entry",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry"))))).GetString("prototype"), of(cyclus::Agent)) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"])))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution")))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry")))] [for times(atoi(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).SubTree("initialfacilitylist/entry",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry"))))).GetString("number")))] call this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).SubTree("initialfacilitylist/entry",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry"))))).GetString("prototype"),of(cyclus::Agent)).cyclus::Agent::Build(this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).GetString("name"),of(cyclus::Agent))) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"])))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution")))] [for range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry")))] [for times(atoi(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).SubTree("initialfacilitylist/entry",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry"))))).GetString("number")))] call this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).GetString("name"),of(cyclus::Agent)).cyclus::Agent::BuildNotify(this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).SubTree("initialfacilitylist/entry",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>["Region"]))))).current_node_.find("institution"))))).current_node_.find("initialfacilitylist/entry"))))).GetString("prototype"),of(cyclus::Agent))) IF this.ctx_.CreateAgent(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).SubTree("institution",idx(range(size(InfileTree{this.parser_}.SubTree(@map<basic_string<char>, basic_string<char>>'["Region"],idx(range(size(InfileTree{this.parser_}.current_node_.find(@map<basic_string<char>, basic_string<char>>'["Region"]))))).current_node_.find("institution"))))).GetString("name"),of(cyclus::Agent))
  seq 5<9 5<10 7<9 7<10 9<10 10<11 10<13 10<16 11<13 11<16 12<15 12<18 13<16 14<15 14<18 15<17 17<18
fn cyclus::XMLFileLoader::BuildAgent
  call this.ctx_.cyclus::Context::CreateAgent($0, of(cyclus::Agent)) IF T
  call this.ctx_.CreateAgent($0,of(cyclus::Agent)).cyclus::Agent::Build($1) IF T
  call $1.cyclus::Agent::BuildNotify(this.ctx_.CreateAgent($0,of(cyclus::Agent))) IF $1
  ret return(this.ctx_.CreateAgent($0,of(cyclus::Agent))) IF T
  seq 1<2
fn cyclus::XMLFileLoader::LoadControlParams
  set phi{@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),"",cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}|@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),InfileTree{this.parser_}.SubTree("/*/control").GetString("simhandle"),cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}}.explicit_inventory(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"explicit_inventory",false,of(bool))) IF T
  set phi{@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),"",cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}|@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),InfileTree{this.parser_}.SubTree("/*/control").GetString("simhandle"),cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}}.explicit_inventory_compact(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"explicit_inventory_compact",false,of(bool))) IF T
  set phi{@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),"",cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}|@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),InfileTree{this.parser_}.SubTree("/*/control").GetString("simhandle"),cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}}.dt(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"dt",kDefaultTimeStepDur,of(int))) IF T
  set phi{@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),"",cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}|@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),InfileTree{this.parser_}.SubTree("/*/control").GetString("simhandle"),cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}}.eps(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"tolerance_generic",1e-06,of(double))) IF T
  set cyclus::cy_eps(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"tolerance_generic",1e-06,of(double))) IF T
  set phi{@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),"",cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}|@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),InfileTree{this.parser_}.SubTree("/*/control").GetString("simhandle"),cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}}.eps_rsrc(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"tolerance_resource",1e-06,of(double))) IF T
  set cyclus::cy_eps_rsrc(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"tolerance_resource",1e-06,of(double))) IF T
  set phi{@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),"",cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}|@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),InfileTree{this.parser_}.SubTree("/*/control").GetString("simhandle"),cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}}.seed(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"seed",kDefaultSeed,of(int))) IF T
  set phi{@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),"",cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}|@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),InfileTree{this.parser_}.SubTree("/*/control").GetString("simhandle"),cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}}.stride(cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"stride",kDefaultStride,of(int))) IF T
  call this.ctx_.cyclus::Context::InitSim(@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),InfileTree{this.parser_}.SubTree("/*/control").GetString("simhandle"),cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}) IF !empty(InfileTree{this.parser_}.SubTree("/*/control").current_node_.find("simhandle"))
  call this.ctx_.cyclus::Context::InitSim(@SimInfo{SimInfo{strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("duration"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startyear"),NULL,10),strtol(InfileTree{this.parser_}.SubTree("/*/control").GetString("startmonth"),NULL,10),"",cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/control"),"decay","manual",of(std::basic_string<char>))}}) IF empty(InfileTree{this.parser_}.SubTree("/*/control").current_node_.find("simhandle"))
fn cyclus::XMLFlatLoader::LoadInitialAgents
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype")))] call cyclus::DynamicModule::Make(this.ctx_, this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)]) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype")))] call cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)]).cyclus::Agent::InfileToDb(InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))), DbInit{cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)]),true}) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype")))] call cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)]).cyclus::Agent::InfileToDb(InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))), DbInit{cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)])}) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype")))] call this.rec_.cyclus::Recorder::Flush() IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype")))] call cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)]).cyclus::Agent::InitFrom(PrefixInjector{CondInjector{this.b_,[Cond{"SimId","==",this.rec_.uuid_}, Cond{"AgentId","==",cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)]).id_}, Cond{"SimTime","==",0}]},"AgentState"}) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype")))] call this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)].cyclus::AgentSpec::Sanitize() IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype")))] call cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)]).cyclus::Agent::InitFrom(PrefixInjector{CondInjector{this.b_,[Cond{"SimId","==",this.rec_.uuid_}, Cond{"AgentId","==",cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)]).id_}, Cond{"SimTime","==",0}]},"AgentState" ++ this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)].Sanitize()}) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype")))] call this.ctx_.cyclus::Context::AddPrototype(InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).GetString("name"), cyclus::DynamicModule::Make(this.ctx_,this.specs_[InfileTree{this.parser_}.SubTree("/*/prototype",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/prototype"))))).SubTree("config").GetElementName(0)])) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/agent")))] put @map<basic_string<char>, basic_string<char>>.put(InfileTree{this.parser_}.SubTree("/*/agent",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))))).GetString("name"), InfileTree{this.parser_}.SubTree("/*/agent",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))))).GetString("prototype")) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/agent")))] put @map<basic_string<char>, basic_string<char>>.put(InfileTree{this.parser_}.SubTree("/*/agent",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))))).GetString("name"), cyclus::OptionalQuery(InfileTree{this.parser_}.SubTree("/*/agent",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))))),"parent","",of(std::basic_string<char>))) IF T
  [for range(size(InfileTree{this.parser_}.current_node_.find("/*/agent")))] put @map<basic_string<char>, InfileTree *>.put(InfileTree{this.parser_}.SubTree("/*/agent",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))))).GetString("name"), InfileTree{this.parser_}.SubTree("/*/agent",idx(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent")))))) IF T
  [for while] call this.ctx_.cyclus::Context::CreateAgent(@map<basic_string<char>, basic_string<char>>[~], of(cyclus::Agent)) IF !empty(~) & has(~,fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]) | empty(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]) & !empty(~)
  [for while] call this.ctx_.CreateAgent(@map<basic_string<char>, basic_string<char>>[~],of(cyclus::Agent)).cyclus::Agent::Build(NULL) IF empty(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]) & !empty(~)
  [for while] put @map<basic_string<char>, Agent *>.put(~, this.ctx_.CreateAgent(@map<basic_string<char>, basic_string<char>>[~],of(cyclus::Agent))) IF !empty(~) & has(~,fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]) | empty(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]) & !empty(~)
  [for while] call this.ctx_.CreateAgent(@map<basic_string<char>, basic_string<char>>[~],of(cyclus::Agent)).cyclus::Agent::Build(~[@map<basic_string<char>, basic_string<char>>[~]]) IF !empty(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]) & !empty(~) & has(~,fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~])
  [for while] call ~[@map<basic_string<char>, basic_string<char>>[~]].cyclus::Agent::BuildNotify(this.ctx_.CreateAgent(@map<basic_string<char>, basic_string<char>>[~],of(cyclus::Agent))) IF !empty(fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]) & !empty(~) & has(~,fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]) & ~[fold(range(size(InfileTree{this.parser_}.current_node_.find("/*/agent"))); @map<basic_string<char>, basic_string<char>>; ~')[~]]
  leave empty(~)
  seq 2<6 2<7 4<6 4<7 6<7 7<11 14<15
fn cyclus::XMLFlatLoader::XMLFlatLoader
  default 3 = ""
  default 4 = "none"
  default 5 = false
  set this.rec_($0) IF T
  set this.ti_(Timer{}) IF T
  set this.b_($1) IF T
  set this.specs_(map{}) IF T
  set this.parser_(shared_ptr{}) IF T
  set this.ctx_(new Context{Timer{},$0}) IF T
  set this.schema_path_($2) IF T
  set this.file_($3) IF T
  set this.format_($4) IF T
  call cyclus::LoadStringstreamFromFile(@basic_stringstream<char>, $3, $4) IF T
  set this.parser_(new XMLParser{}) IF T
  call new XMLParser{}.cyclus::XMLParser::Init(@basic_stringstream<char>) IF T
  set this.ms_print_($5) IF T
  call new XMLParser{}.cyclus::XMLParser::Document() IF T
  call new XMLParser{}.Document().xmlpp::Document::write_to_stream_formatted(@basic_stringstream<char>) IF T
  call new Context{Timer{},$0}.rec_.NewDatum("InputFiles").cyclus::Datum::AddVal("Data", Blob{@basic_stringstream<char>}) IF T
  call new Context{Timer{},$0}.rec_.NewDatum("InputFiles").cyclus::Datum::Record() IF T
  seq 11<13
fn cyclus::XMLFileLoader::master_schema
  stop: MasterSchema
  call cyclus::BuildMasterSchema(this.schema_path_, this.file_, this.format_) IF T
  ret return(cyclus::BuildMasterSchema(this.schema_path_,this.file_,this.format_)) IF T
fn cyclus::XMLFlatLoader::master_schema
  stop: MasterSchema
  call cyclus::BuildFlatMasterSchema(this.schema_path_, this.file_) IF T
  ret return(cyclus::BuildFlatMasterSchema(this.schema_path_,this.file_)) IF T
fn cyclus::BuildMasterSchema
  default 2 = "none"
  throw cyclus::IOError() IF !$0 | !$1 & $2 == "none"
  call cyclus::toolkit::JsonToXml($0.rdbuf()) IF $0 & path{$0}.extension().string() == ".json"
  call cyclus::toolkit::PyToJson($0.rdbuf()) IF $0 & !path{$0}.extension().string() == ".json" & path{$0}.extension().string() == ".py"
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($0.rdbuf())) IF $0 & !path{$0}.extension().string() == ".json" & path{$0}.extension().string() == ".py"
  call cyclus::toolkit::JsonToXml($1.rdbuf()) IF $0 & $1 & $2 == "json" & $2 == "none" | $0 & $1 & $2 == "none" & path{$1}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml($1) IF $0 & !$2 == "none" & empty(".json") | $0 & $2 == "json" & !$2 == "none"
  call cyclus::toolkit::PyToJson($1.rdbuf()) IF $0 & $1 & !$2 == "json" & $2 == "none" & !path{$1}.extension().string() == ".json" & path{$1}.extension().string() == ".py" | $0 & $1 & !$2 == "json" & $2 == "none" & $2 == "py" & !path{$1}.extension().string() == ".json"
  call cyclus::toolkit::PyToJson($1) IF $0 & !$2 == "json" & !$2 == "none" & !empty(".json") & empty(".py") | $0 & !$2 == "json" & !$2 == "none" & $2 == "py" & !empty(".json")
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($1.rdbuf())) IF $0 & $1 & !$2 == "json" & $2 == "none" & !path{$1}.extension().string() == ".json" & path{$1}.extension().string() == ".py" | $0 & $1 & !$2 == "json" & $2 == "none" & $2 == "py" & !path{$1}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($1)) IF $0 & !$2 == "json" & !$2 == "none" & !empty(".json") & empty(".py") | $0 & !$2 == "json" & !$2 == "none" & $2 == "py" & !empty(".json")
  call @XMLParser.cyclus::XMLParser::Init($1.rdbuf()') IF $0 & $1 & $2 == "none"
  call @XMLParser.cyclus::XMLParser::Init($1') IF $0 & !$2 == "none"
  [for range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))] add @vector<AgentSpec>.add(AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}) IF $0 & !$2 == "none" & !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_) | $0 & $1 & !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_)
  throw cyclus::ValidationError() IF $0 & !$2 == "none" & empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) | $0 & $1 & empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))
  [for fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)] call cyclus::DynamicModule::Make(~, elem(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))) IF $0 & !$2 == "none" & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) | $0 & $1 & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))
  [for fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)] call cyclus::DynamicModule::Make(~,elem(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))).cyclus::Agent::schema() IF $0 & !$2 == "none" & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) | $0 & $1 & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))
  [for fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)] call ~'.cyclus::Context::DelAgent(cyclus::DynamicModule::Make(~,elem(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)))) IF $0 & !$2 == "none" & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) | $0 & $1 & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))
  ret return($0.rdbuf()') IF $0 & !$2 == "none" & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) | $0 & $1 & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))
fn cyclus::BuildFlatMasterSchema
  call cyclus::LoadStringstreamFromFile("", $0) IF T
  call cyclus::ParseSpecs($1) IF T
  [for cyclus::ParseSpecs($1)] call cyclus::DynamicModule::Make(~, elem(cyclus::ParseSpecs($1))) IF T
  [for cyclus::ParseSpecs($1)] call cyclus::DynamicModule::Make(~,elem(cyclus::ParseSpecs($1))).cyclus::Agent::schema() IF T
  [for cyclus::ParseSpecs($1)] call ~'.cyclus::Context::DelAgent(cyclus::DynamicModule::Make(~,elem(cyclus::ParseSpecs($1)))) IF T
  ret return(""') IF T
  carry fold(cyclus::ParseSpecs($1); ""; ~ ++ "<element name=\"" ++ elem(cyclus::ParseSpecs($1)).alias_ ++ "\">\n" ++ cyclus::DynamicModule::Make(~,elem(cyclus::ParseSpecs($1))).schema() ++ "\n</element>\n")
fn cyclus::LoadRawStringstreamFromFile
  throw cyclus::IOError() IF !$1
  set $0($1.rdbuf()) IF $1
fn cyclus::LoadStringstreamFromFile
  default 2 = "none"
  throw cyclus::IOError() IF !$1 & $2 == "none"
  call cyclus::toolkit::JsonToXml($1.rdbuf()) IF $1 & $2 == "json" & $2 == "none" | $1 & $2 == "none" & path{$1}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml($1) IF !$2 == "none" & empty(".json") | $2 == "json" & !$2 == "none"
  call cyclus::toolkit::PyToJson($1.rdbuf()) IF $1 & !$2 == "json" & $2 == "none" & !path{$1}.extension().string() == ".json" & path{$1}.extension().string() == ".py" | $1 & !$2 == "json" & $2 == "none" & $2 == "py" & !path{$1}.extension().string() == ".json"
  call cyclus::toolkit::PyToJson($1) IF !$2 == "json" & !$2 == "none" & !empty(".json") & empty(".py") | !$2 == "json" & !$2 == "none" & $2 == "py" & !empty(".json")
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($1.rdbuf())) IF $1 & !$2 == "json" & $2 == "none" & !path{$1}.extension().string() == ".json" & path{$1}.extension().string() == ".py" | $1 & !$2 == "json" & $2 == "none" & $2 == "py" & !path{$1}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($1)) IF !$2 == "json" & !$2 == "none" & !empty(".json") & empty(".py") | !$2 == "json" & !$2 == "none" & $2 == "py" & !empty(".json")
  set $0($1.rdbuf()') IF $1 & $2 == "none"
  set $0($1') IF !$2 == "none"
fn cyclus::LoadStringFromFile
  default 1 = "none"
  throw cyclus::IOError() IF !$0 & $1 == "none"
  call cyclus::toolkit::JsonToXml($0.rdbuf()) IF $0 & $1 == "json" & $1 == "none" | $0 & $1 == "none" & path{$0}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml($0) IF !$1 == "none" & empty(".json") | $1 == "json" & !$1 == "none"
  call cyclus::toolkit::PyToJson($0.rdbuf()) IF $0 & !$1 == "json" & $1 == "none" & !path{$0}.extension().string() == ".json" & path{$0}.extension().string() == ".py" | $0 & !$1 == "json" & $1 == "none" & $1 == "py" & !path{$0}.extension().string() == ".json"
  call cyclus::toolkit::PyToJson($0) IF !$1 == "json" & !$1 == "none" & !empty(".json") & empty(".py") | !$1 == "json" & !$1 == "none" & $1 == "py" & !empty(".json")
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($0.rdbuf())) IF $0 & !$1 == "json" & $1 == "none" & !path{$0}.extension().string() == ".json" & path{$0}.extension().string() == ".py" | $0 & !$1 == "json" & $1 == "none" & $1 == "py" & !path{$0}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($0)) IF !$1 == "json" & !$1 == "none" & !empty(".json") & empty(".py") | !$1 == "json" & !$1 == "none" & $1 == "py" & !empty(".json")
  ret return($0.rdbuf()') IF $0 & $1 == "none"
  ret return($0') IF !$1 == "none"
fn cyclus::ParseSpecs
  default 1 = "none"
  throw cyclus::IOError() IF !$0 & $1 == "none"
  call cyclus::toolkit::JsonToXml($0.rdbuf()) IF $0 & $1 == "json" & $1 == "none" | $0 & $1 == "none" & path{$0}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml($0) IF !$1 == "none" & empty(".json") | $1 == "json" & !$1 == "none"
  call cyclus::toolkit::PyToJson($0.rdbuf()) IF $0 & !$1 == "json" & $1 == "none" & !path{$0}.extension().string() == ".json" & path{$0}.extension().string() == ".py" | $0 & !$1 == "json" & $1 == "none" & $1 == "py" & !path{$0}.extension().string() == ".json"
  call cyclus::toolkit::PyToJson($0) IF !$1 == "json" & !$1 == "none" & !empty(".json") & empty(".py") | !$1 == "json" & !$1 == "none" & $1 == "py" & !empty(".json")
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($0.rdbuf())) IF $0 & !$1 == "json" & $1 == "none" & !path{$0}.extension().string() == ".json" & path{$0}.extension().string() == ".py" | $0 & !$1 == "json" & $1 == "none" & $1 == "py" & !path{$0}.extension().string() == ".json"
  call cyclus::toolkit::JsonToXml(cyclus::toolkit::PyToJson($0)) IF !$1 == "json" & !$1 == "none" & !empty(".json") & empty(".py") | !$1 == "json" & !$1 == "none" & $1 == "py" & !empty(".json")
  call @XMLParser.cyclus::XMLParser::Init($0.rdbuf()') IF $0 & $1 == "none"
  call @XMLParser.cyclus::XMLParser::Init($0') IF !$1 == "none"
  [for range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))] add @vector<AgentSpec>.add(AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}) IF !$1 == "none" & !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_) | $0 & !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_)
  throw cyclus::ValidationError() IF !$1 == "none" & empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) | $0 & empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))
  ret return(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) IF !$1 == "none" & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~)) | $0 & !empty(fold(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec"))); @vector<AgentSpec>; !has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~' ; has(~,AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.path_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.lib_ ++ ":" ++ AgentSpec{InfileTree{@XMLParser}.SubTree("/simulation/archetypes/spec",idx(range(size(InfileTree{@XMLParser}.current_node_.find("/simulation/archetypes/spec")))))}.agent_):~))
fn cyclus::ReadRecipe
  [for range(size($0.current_node_.find("nuclide")))] put @map<int, double>.put(pyne::nucname::id($0.SubTree("nuclide",idx(range(size($0.current_node_.find("nuclide"))))).GetString("id")), strtod($0.SubTree("nuclide",idx(range(size($0.current_node_.find("nuclide"))))).GetString("comp"),NULL)) IF $0.GetString("basis") == "atom" | $0.GetString("basis") == "mass"
  call cyclus::Composition::CreateFromAtom(@map<int, double>) IF $0.GetString("basis") == "atom"
  ret return(cyclus::Composition::CreateFromAtom(@map<int, double>)) IF $0.GetString("basis") == "atom"
  call cyclus::Composition::CreateFromMass(@map<int, double>) IF !$0.GetString("basis") == "atom" & $0.GetString("basis") == "mass"
  ret return(cyclus::Composition::CreateFromMass(@map<int, double>)) IF !$0.GetString("basis") == "atom" & $0.GetString("basis") == "mass"
  throw cyclus::IOError() IF !$0.GetString("basis") == "atom" & !$0.GetString("basis") == "mass"
fn cyclus::InfileTree::InfileTree | cyclus::XMLParser &
  set this.spawned_children_(set{}) IF T
  set this.current_node_(NULL) IF T
  call $0.cyclus::XMLParser::Document() IF T
  set this.current_node_($0.Document().get_root_node()) IF T
fn cyclus::InfileTree::InfileTree | xmlpp::Node *
  set this.spawned_children_(set{}) IF T
  set this.current_node_($0) IF T
fn cyclus::InfileTree::NElements
  ret return(fold(this.current_node_.get_children(); 0; !dyn<const xmlpp::Element>(elem(this.current_node_.get_children())):~ ; dyn<const xmlpp::Element>(elem(this.current_node_.get_children())):(~+1))) IF T
fn cyclus::InfileTree::NMatches
  ret return(size(this.current_node_.find($0))) IF T
fn cyclus::InfileTree::GetString
  default 1 = 0
  throw cyclus::KeyError() IF empty(this.current_node_.find($0))
  throw cyclus::ValueError() IF ($1-size(this.current_node_.find($0))) >= 0 & !empty(this.current_node_.find($0)) | dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]) & !empty(this.current_node_.find($0)) & !size(dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]).get_children()) == 1
  ret return(dyn<const xmlpp::TextNode>(dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]).get_children()[0]).get_content().operator basic_string()) IF !($1-size(this.current_node_.find($0))) >= 0 & dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]) & dyn<const xmlpp::TextNode>(dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]).get_children()[0]) & !empty(this.current_node_.find($0)) & size(dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]).get_children()) == 1
  throw cyclus::CastError() IF !($1-size(this.current_node_.find($0))) >= 0 & !dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]) & !empty(this.current_node_.find($0)) | !($1-size(this.current_node_.find($0))) >= 0 & !dyn<const xmlpp::TextNode>(dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]).get_children()[0]) & !empty(this.current_node_.find($0)) & size(dyn<const xmlpp::Element>(this.current_node_.find($0)[$1]).get_children()) == 1
fn cyclus::InfileTree::GetElementName
  default 0 = 0
  [for this.current_node_.get_children()] add @vector<xmlpp::Element *>.add(dyn<xmlpp::Element>(elem(this.current_node_.get_children()))) IF dyn<xmlpp::Element>(elem(this.current_node_.get_children()))
  throw cyclus::ValueError() IF ($0-size(fold(this.current_node_.get_children(); @vector<xmlpp::Element *>; !dyn<xmlpp::Element>(elem(this.current_node_.get_children())):~ ; dyn<xmlpp::Element>(elem(this.current_node_.get_children())):~'))) >= 0
  ret return(fold(this.current_node_.get_children(); @vector<xmlpp::Element *>; !dyn<xmlpp::Element>(elem(this.current_node_.get_children())):~ ; dyn<xmlpp::Element>(elem(this.current_node_.get_children())):~')[$0].get_name().operator basic_string()) IF !($0-size(fold(this.current_node_.get_children(); @vector<xmlpp::Element *>; !dyn<xmlpp::Element>(elem(this.current_node_.get_children())):~ ; dyn<xmlpp::Element>(elem(this.current_node_.get_children())):~'))) >= 0
fn cyclus::InfileTree::GetEngineFromQuery
  throw cyclus::ValueError() IF ($1-size(this.current_node_.find($0))) >= 0
  ret return(new InfileTree{dyn<xmlpp::Element>(this.current_node_.find($0)[$1])}) IF !($1-size(this.current_node_.find($0))) >= 0 & dyn<xmlpp::Element>(this.current_node_.find($0)[$1])
  throw cyclus::CastError() IF !($1-size(this.current_node_.find($0))) >= 0 & !dyn<xmlpp::Element>(this.current_node_.find($0)[$1])
fn cyclus::InfileTree::SubTree
  default 1 = 0
  add this.spawned_children_.add(this.GetEngineFromQuery($0,$1)) IF !has(this.spawned_children_,this.GetEngineFromQuery($0,$1))
  ret return(this.GetEngineFromQuery($0,$1)) IF T
fn cyclus::Query<bool> | cyclus::InfileTree *; std::basic_string<char>; int
  default 2 = 0
  ret return(boost::lexical_cast($0.GetString($1,$2),of(bool))) IF T
fn cyclus::Query<std::basic_string<char>> | cyclus::InfileTree *; std::basic_string<char>; int
  default 2 = 0
  ret return($0.GetString($1,$2)) IF T
fn cyclus::Query<int> | cyclus::InfileTree *; std::basic_string<char>; int
  default 2 = 0
  ret return(boost::lexical_cast(boost::algorithm::trim_copy($0.GetString($1,$2)),of(int))) IF T
fn cyclus::Query<float> | cyclus::InfileTree *; std::basic_string<char>; int
  default 2 = 0
  ret return(boost::lexical_cast(boost::algorithm::trim_copy($0.GetString($1,$2)),of(float))) IF T
fn cyclus::Query<double> | cyclus::InfileTree *; std::basic_string<char>; int
  default 2 = 0
  ret return(boost::lexical_cast(boost::algorithm::trim_copy($0.GetString($1,$2)),of(double))) IF T
fn cyclus::OptionalQuery<std::basic_string<char>> | cyclus::InfileTree *; std::basic_string<char>; std::basic_string<char>
  ret return(boost::lexical_cast($0.GetString($1),of(std::basic_string<char>))) IF size($0.current_node_.find($1)) == 1
  ret return($2) IF !size($0.current_node_.find($1)) == 1
fn cyclus::OptionalQuery<int> | cyclus::InfileTree *; std::basic_string<char>; int
  ret return(boost::lexical_cast(boost::algorithm::trim_copy($0.GetString($1)),of(int))) IF size($0.current_node_.find($1)) == 1
  ret return($2) IF !size($0.current_node_.find($1)) == 1
fn cyclus::OptionalQuery<bool> | cyclus::InfileTree *; std::basic_string<char>; bool
  ret return($2) IF empty($0.current_node_.find($1))
  call std::transform(boost::algorithm::trim_copy($0.GetString($1)).begin(), boost::algorithm::trim_copy($0.GetString($1)).end(), boost::algorithm::trim_copy($0.GetString($1)).begin(), fn{T: call tolower(%1) | T:tolower(%1)}) IF !empty($0.current_node_.find($1))
  ret return(true) IF boost::algorithm::trim_copy($0.GetString($1)) == "1" & !empty($0.current_node_.find($1)) | boost::algorithm::trim_copy($0.GetString($1)) == "t" & !empty($0.current_node_.find($1)) | boost::algorithm::trim_copy($0.GetString($1)) == "true" & !empty($0.current_node_.find($1))
fn cyclus::OptionalQuery<float> | cyclus::InfileTree *; std::basic_string<char>; float
  ret return(boost::lexical_cast(boost::algorithm::trim_copy($0.GetString($1)),of(float))) IF size($0.current_node_.find($1)) == 1
  ret return($2) IF !size($0.current_node_.find($1)) == 1
fn cyclus::OptionalQuery<double> | cyclus::InfileTree *; std::basic_string<char>; double
  ret return(boost::lexical_cast(boost::algorithm::trim_copy($0.GetString($1)),of(double))) IF size($0.current_node_.find($1)) == 1
  ret return($2) IF !size($0.current_node_.find($1)) == 1
fn cyclus::XMLParser::XMLParser
  set this.parser_(new DomParser{}) IF T
fn cyclus::XMLParser::~XMLParser
  delete delete(this.parser_) IF this.parser_
fn cyclus::XMLParser::Init | const std::basic_string<char> &
  delete delete(this.parser_) IF this.parser_
  set this.parser_(new DomParser{}) IF T
  call new DomParser{}.xmlpp::DomParser::parse_memory($0) IF T
  throw cyclus::ValidationError() IF caught(const std::exception &)
fn cyclus::XMLParser::Init | const std::basic_stringstream<char> &
  delete delete(this.parser_) IF this.parser_
  set this.parser_(new DomParser{}) IF T
  call new DomParser{}.xmlpp::DomParser::parse_memory($0) IF T
  throw cyclus::ValidationError() IF caught(const std::exception &)
fn cyclus::XMLParser::Validate
  call @RelaxNGValidator.cyclus::RelaxNGValidator::parse_memory($0) IF T
  call this.parser_.get_document().xmlpp::Document::process_xinclude(true, false) IF T
  [for this.parser_.get_document().get_root_node().find("//*[@xml:base]")] call elem(this.parser_.get_document().get_root_node().find("//*[@xml:base]")).xmlpp::Element::remove_attribute("base", "xml") IF T
  call @RelaxNGValidator.cyclus::RelaxNGValidator::Validate(this.parser_.get_document()) IF T
  seq 0<3
fn cyclus::XMLParser::Document
  call this.parser_.get_document().xmlpp::Document::process_xinclude(true, false) IF T
  [for this.parser_.get_document().get_root_node().find("//*[@xml:base]")] call elem(this.parser_.get_document().get_root_node().find("//*[@xml:base]")).xmlpp::Element::remove_attribute("base", "xml") IF T
  ret return(this.parser_.get_document()) IF T
fn cyclus::RelaxNGValidator::RelaxNGValidator
  set this.schema_(NULL) IF T
  set this.valid_context_(NULL) IF T
fn cyclus::RelaxNGValidator::~RelaxNGValidator
  call xmlRelaxNGFreeValidCtxt(this.valid_context_) IF this.valid_context_
  set this.valid_context_(NULL) IF this.valid_context_
  call xmlRelaxNGFree(this.schema_) IF this.schema_
  set this.schema_(NULL) IF this.schema_
fn cyclus::RelaxNGValidator::parse_context
  call xmlRelaxNGFreeValidCtxt(this.valid_context_) IF this.valid_context_
  set this.valid_context_(NULL) IF this.valid_context_
  call xmlRelaxNGFree(this.schema_) IF this.schema_
  call xmlRelaxNGParse($0) IF T
  set this.schema_(xmlRelaxNGParse($0)) IF T
  throw cyclus::ValidationError() IF !xmlRelaxNGParse($0)
fn cyclus::RelaxNGValidator::parse_memory
  call xmlRelaxNGNewMemParserCtxt($0.c_str(), $0.bytes()) IF T
  call xmlRelaxNGFreeValidCtxt(this.valid_context_) IF this.valid_context_
  set this.valid_context_(NULL) IF this.valid_context_
  call xmlRelaxNGFree(this.schema_) IF this.schema_
  call xmlRelaxNGParse(xmlRelaxNGNewMemParserCtxt($0.c_str(),$0.bytes())) IF T
  set this.schema_(xmlRelaxNGParse(xmlRelaxNGNewMemParserCtxt($0.c_str(),$0.bytes()))) IF T
  throw cyclus::ValidationError() IF !xmlRelaxNGParse(xmlRelaxNGNewMemParserCtxt($0.c_str(),$0.bytes()))
fn cyclus::RelaxNGValidator::release_underlying
  call xmlRelaxNGFreeValidCtxt(this.valid_context_) IF this.valid_context_
  set this.valid_context_(NULL) IF this.valid_context_
  call xmlRelaxNGFree(this.schema_) IF this.schema_
  set this.schema_(NULL) IF this.schema_
fn cyclus::RelaxNGValidator::Validate
  call xmlRelaxNGNewValidCtxt(this.schema_) IF $0 & this.schema_ & !this.valid_context_
  set this.valid_context_(xmlRelaxNGNewValidCtxt(this.schema_)) IF $0 & this.schema_ & !this.valid_context_
  call $0.xmlpp::Document::cobj() IF $0 & this.schema_ & this.valid_context_ | $0 & this.schema_ & xmlRelaxNGNewValidCtxt(this.schema_)
  call xmlRelaxNGValidateDoc(xmlRelaxNGNewValidCtxt(this.schema_), $0.cobj()) IF $0 & this.schema_ & !this.valid_context_ & xmlRelaxNGNewValidCtxt(this.schema_)
  call xmlRelaxNGValidateDoc(this.valid_context_, $0.cobj()) IF $0 & this.schema_ & this.valid_context_
  throw cyclus::ValidationError() IF !$0 | !this.schema_ | !this.valid_context_ & !xmlRelaxNGNewValidCtxt(this.schema_) | !this.valid_context_ & !xmlRelaxNGValidateDoc(xmlRelaxNGNewValidCtxt(this.schema_),$0.cobj()) == 0 | caught(_xmlError) | this.valid_context_ & !xmlRelaxNGValidateDoc(this.valid_context_,$0.cobj()) == 0
  ret return(false) IF $0 & this.schema_ & !this.valid_context_ & xmlRelaxNGNewValidCtxt(this.schema_) & xmlRelaxNGValidateDoc(xmlRelaxNGNewValidCtxt(this.schema_),$0.cobj()) == 0 | $0 & this.schema_ & this.valid_context_ & xmlRelaxNGValidateDoc(this.valid_context_,$0.cobj()) == 0
