fn cyclus::KFacility::KFacility
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.manager_(this) IF T
  set this.kind_("Facility") IF T
  set this.in_commod("") IF T
  set this.cycpp_shape_in_commod(vector{}) IF T
  set this.recipe_name("") IF T
  set this.cycpp_shape_recipe_name(vector{}) IF T
  set this.out_commod("") IF T
  set this.cycpp_shape_out_commod(vector{}) IF T
  set this.in_capacity(100) IF T
  set this.cycpp_shape_in_capacity(vector{}) IF T
  set this.out_capacity(100) IF T
  set this.cycpp_shape_out_capacity(vector{}) IF T
  set this.cycpp_shape_current_capacity(vector{}) IF T
  set this.cycpp_shape_max_inv_size(vector{}) IF T
  set this.inventory(toolkit::ResBuf<Resource>{}) IF T
  set this.cycpp_shape_inventory(vector{}) IF T
  set this.k_factor_in(1) IF T
  set this.cycpp_shape_k_factor_in(vector{}) IF T
  set this.k_factor_out(1) IF T
  set this.cycpp_shape_k_factor_out(vector{}) IF T
fn cyclus::KFacility::~KFacility
fn cyclus::KFacility::Tick
  set this.current_capacity(this.out_capacity) IF T
fn cyclus::KFacility::Tock
  set this.in_capacity((this.in_capacity*this.k_factor_in)) IF T
  set this.out_capacity((this.k_factor_out*this.out_capacity)) IF T
  set this.current_capacity((this.k_factor_out*this.out_capacity)) IF T
fn cyclus::KFacility::GetOffer
  ret return(cyclus::Material::CreateUntracked(min($0.qty_,this.out_capacity),this.ctx_.GetRecipe(this.recipe_name))) IF T
fn cyclus::KFacility::GetMatlBids
  [for $0[this.out_commod]] call new BidPortfolio{}.cyclus::BidPortfolio::AddBid(elem($0[this.out_commod]), cyclus::Material::CreateUntracked(min(elem($0[this.out_commod]).target_.qty_,this.out_capacity),this.ctx_.GetRecipe(this.recipe_name)), this, false, std::numeric_limits<double>::quiet_NaN()) IF has($0,this.out_commod)
  call new BidPortfolio{}.cyclus::BidPortfolio::AddConstraint(CapacityConstraint<Material>{this.out_capacity}) IF has($0,this.out_commod)
  add @set<boost::shared_ptr<BidPortfolio<Material>>>.add(new BidPortfolio{}) IF has($0,this.out_commod)
  ret return(@set<boost::shared_ptr<BidPortfolio<Material>>>) IF T
fn cyclus::KFacility::GetMatlTrades
  [for $0] set this.current_capacity((-elem($0).amt+~this.current_capacity)) IF T
  [for $0] call cyclus::Material::Create(this, elem($0).amt, this.ctx_.GetRecipe(this.recipe_name)) IF T
  [for $0] add $1.add(pair(elem($0),cyclus::Material::Create(this,elem($0).amt,this.ctx_.GetRecipe(this.recipe_name)))) IF T
  throw cyclus::ValueError() IF !(cyclus::cy_eps-fold($0; 0; (elem($0).amt+~))+this.current_capacity) >= 0
fn cyclus::KFacility::GetMatlRequests
  call new RequestPortfolio{}.cyclus::RequestPortfolio::AddConstraint(CapacityConstraint<Material>{this.in_capacity}) IF !(cyclus::cy_eps-this.in_capacity) >= 0
  call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::NewBlankMaterial(this.in_capacity), this, this.in_commod, cyclus::kDefaultPref, false, NULL) IF !(cyclus::cy_eps-this.in_capacity) >= 0
  add @set<boost::shared_ptr<RequestPortfolio<Material>>>.add(new RequestPortfolio{}) IF !(cyclus::cy_eps-this.in_capacity) >= 0
  ret return(@set<boost::shared_ptr<RequestPortfolio<Material>>>) IF T
fn cyclus::KFacility::GetProductRequests
  call new RequestPortfolio{}.cyclus::RequestPortfolio::AddConstraint(CapacityConstraint<Product>{this.in_capacity}) IF !(cyclus::cy_eps-this.in_capacity) >= 0
  call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Product::CreateUntracked(this.in_capacity,""), this, this.in_commod, cyclus::kDefaultPref, false, NULL) IF !(cyclus::cy_eps-this.in_capacity) >= 0
  add @set<boost::shared_ptr<RequestPortfolio<Product>>>.add(new RequestPortfolio{}) IF !(cyclus::cy_eps-this.in_capacity) >= 0
  ret return(@set<boost::shared_ptr<RequestPortfolio<Product>>>) IF T
fn cyclus::KFacility::AcceptMatlTrades
  [for $0] call this.inventory.cyclus::toolkit::ResBuf::Push(elem($0).second) IF T
fn cyclus::KFacility::AcceptProductTrades
  [for $0] call this.inventory.cyclus::toolkit::ResBuf::Push(elem($0).second) IF T
fn cyclus::KFacility::version
  ret return("1.6") IF T
fn cyclus::KFacility::InitFrom | cyclus::KFacility *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
  set this.cycpp_shape_in_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_recipe_name(vector{[50],([50]+1)}) IF T
  set this.cycpp_shape_out_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_in_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_out_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_current_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_max_inv_size(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_inventory(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_k_factor_in(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_k_factor_out(vector{[-1],([-1]+1)}) IF T
  set this.in_commod($0.in_commod) IF T
  set this.recipe_name($0.recipe_name) IF T
  set this.out_commod($0.out_commod) IF T
  set this.in_capacity($0.in_capacity) IF T
  set this.out_capacity($0.out_capacity) IF T
  set this.current_capacity($0.current_capacity) IF T
  set this.max_inv_size($0.max_inv_size) IF T
  set this.k_factor_in($0.k_factor_in) IF T
  set this.k_factor_out($0.k_factor_out) IF T
  call this.inventory.cyclus::toolkit::ResBuf::capacity($0.inventory.cap_) IF T
fn cyclus::KFacility::InitFrom | cyclus::QueryableBackend *
  set this.cycpp_shape_in_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_recipe_name(vector{[50],([50]+1)}) IF T
  set this.cycpp_shape_out_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_in_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_out_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_current_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_max_inv_size(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_inventory(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_k_factor_in(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_k_factor_out(vector{[-1],([-1]+1)}) IF T
  set this.in_commod($0.Query("Info",NULL).GetVal("in_commod",of(std::basic_string<char>))) IF T
  set this.recipe_name($0.Query("Info",NULL).GetVal("recipe_name",of(std::basic_string<char>))) IF T
  set this.out_commod($0.Query("Info",NULL).GetVal("out_commod",of(std::basic_string<char>))) IF T
  set this.in_capacity($0.Query("Info",NULL).GetVal("in_capacity",of(double))) IF T
  set this.out_capacity($0.Query("Info",NULL).GetVal("out_capacity",of(double))) IF T
  set this.current_capacity($0.Query("Info",NULL).GetVal("current_capacity",of(double))) IF T
  set this.max_inv_size($0.Query("Info",NULL).GetVal("max_inv_size",of(double))) IF T
  set this.k_factor_in($0.Query("Info",NULL).GetVal("k_factor_in",of(double))) IF T
  set this.k_factor_out($0.Query("Info",NULL).GetVal("k_factor_out",of(double))) IF T
  call this.inventory.cyclus::toolkit::ResBuf::capacity($0.Query("Info",NULL).GetVal("max_inv_size",of(double))) IF T
fn cyclus::KFacility::InfileToDb
  set this.cycpp_shape_in_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_recipe_name(vector{[50],([50]+1)}) IF T
  set this.cycpp_shape_out_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_in_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_out_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_current_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_max_inv_size(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_inventory(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_k_factor_in(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_k_factor_out(vector{[-1],([-1]+1)}) IF T
  set this.in_commod($0.SubTree("config/*").GetString("in_commod",0)) IF T
  set this.recipe_name($0.SubTree("config/*").GetString("recipe_name",0)) IF T
  set this.out_commod($0.SubTree("config/*").GetString("out_commod",0)) IF T
  call cyclus::Query($0.SubTree("config/*"), "in_capacity", of(double)) IF T
  set this.in_capacity(cyclus::Query($0.SubTree("config/*"),"in_capacity",of(double))) IF T
  call cyclus::Query($0.SubTree("config/*"), "out_capacity", of(double)) IF T
  set this.out_capacity(cyclus::Query($0.SubTree("config/*"),"out_capacity",of(double))) IF T
  call cyclus::Query($0.SubTree("config/*"), "current_capacity", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("current_capacity"))
  set this.current_capacity(cyclus::Query($0.SubTree("config/*"),"current_capacity",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("current_capacity"))
  set this.current_capacity(0) IF empty($0.SubTree("config/*").current_node_.find("current_capacity"))
  call cyclus::Query($0.SubTree("config/*"), "max_inv_size", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  set this.max_inv_size(cyclus::Query($0.SubTree("config/*"),"max_inv_size",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  set this.max_inv_size(1e+299) IF empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  call cyclus::Query($0.SubTree("config/*"), "k_factor_in", of(double)) IF T
  set this.k_factor_in(cyclus::Query($0.SubTree("config/*"),"k_factor_in",of(double))) IF T
  call cyclus::Query($0.SubTree("config/*"), "k_factor_out", of(double)) IF T
  set this.k_factor_out(cyclus::Query($0.SubTree("config/*"),"k_factor_out",of(double))) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("in_commod", $0.SubTree("config/*").GetString("in_commod",0), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("recipe_name", $0.SubTree("config/*").GetString("recipe_name",0), vector{[50],([50]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("out_commod", $0.SubTree("config/*").GetString("out_commod",0), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("in_capacity", cyclus::Query($0.SubTree("config/*"),"in_capacity",of(double)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("out_capacity", cyclus::Query($0.SubTree("config/*"),"out_capacity",of(double)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("current_capacity", cyclus::Query($0.SubTree("config/*"),"current_capacity",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("current_capacity"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("current_capacity", 0, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("current_capacity"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("max_inv_size", cyclus::Query($0.SubTree("config/*"),"max_inv_size",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("max_inv_size", 1e+299, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("k_factor_in", cyclus::Query($0.SubTree("config/*"),"k_factor_in",of(double)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("k_factor_out", cyclus::Query($0.SubTree("config/*"),"k_factor_out",of(double)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::KFacility::Clone
  call new KFacility{this.ctx_}.cyclus::KFacility::InitFrom(this) IF T
  ret return(new KFacility{this.ctx_}) IF T
fn cyclus::KFacility::InitInv
  call this.inventory.cyclus::toolkit::ResBuf::Push($0["inventory"]) IF T
fn cyclus::KFacility::SnapshotInv
  call this.inventory.cyclus::toolkit::ResBuf::PopN(size(this.inventory.rs_)) IF T
  put @map<basic_string<char>, vector<boost::shared_ptr<Resource>>>.put("inventory", this.inventory.PopN(size(this.inventory.rs_))) IF T
  call this.inventory.cyclus::toolkit::ResBuf::Push(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>["inventory"]) IF T
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
  seq 0<2
fn cyclus::KFacility::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::AddVal("in_commod", this.in_commod, this.cycpp_shape_in_commod) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("recipe_name", this.recipe_name, this.cycpp_shape_recipe_name) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("out_commod", this.out_commod, this.cycpp_shape_out_commod) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("in_capacity", this.in_capacity, this.cycpp_shape_in_capacity) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("out_capacity", this.out_capacity, this.cycpp_shape_out_capacity) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("current_capacity", this.current_capacity, this.cycpp_shape_current_capacity) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("max_inv_size", this.max_inv_size, this.cycpp_shape_max_inv_size) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("k_factor_in", this.k_factor_in, this.cycpp_shape_k_factor_in) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("k_factor_out", this.k_factor_out, this.cycpp_shape_k_factor_out) IF T
  call $0.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::KFacility::commodity | std::basic_string<char>
  set this.out_commod($0) IF T
fn cyclus::KFacility::commodity | const
  ret return(this.out_commod) IF T
fn cyclus::KFacility::capacity | double
  set this.out_capacity($0) IF T
  set this.current_capacity($0) IF T
fn cyclus::KFacility::capacity | const
  ret return(this.out_capacity) IF T
fn cyclus::KFacility::recipe | std::basic_string<char>
  set this.recipe_name($0) IF T
fn cyclus::KFacility::recipe | const
  ret return(this.recipe_name) IF T
fn cyclus::KFacility::CurrentCapacity
  ret return(this.current_capacity) IF T
fn cyclus::KFacility::RequestAmt
  ret return(this.in_capacity) IF T
fn cyclus::KFacility::KFactorIn | const
  ret return(this.k_factor_in) IF T
fn cyclus::KFacility::KFactorIn | double
  set this.k_factor_in($0) IF T
fn cyclus::KFacility::KFactorOut | const
  ret return(this.k_factor_out) IF T
fn cyclus::KFacility::KFactorOut | double
  set this.k_factor_out($0) IF T
fn cyclus::NullInst::NullInst
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.kind_("Inst") IF T
fn cyclus::NullInst::~NullInst
fn cyclus::NullInst::version
  ret return("1.6") IF T
fn cyclus::NullInst::InitFrom | cyclus::NullInst *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
fn cyclus::NullInst::InitFrom | cyclus::QueryableBackend *
fn cyclus::NullInst::InfileToDb
  call $1.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::NullInst::Clone
  call new NullInst{this.ctx_}.cyclus::NullInst::InitFrom(this) IF T
  ret return(new NullInst{this.ctx_}) IF T
fn cyclus::NullInst::InitInv
fn cyclus::NullInst::SnapshotInv
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
fn cyclus::NullInst::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::NullRegion::NullRegion
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.kind_("Region") IF T
fn cyclus::NullRegion::~NullRegion
fn cyclus::NullRegion::version
  ret return("1.6") IF T
fn cyclus::NullRegion::InitFrom | cyclus::NullRegion *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
fn cyclus::NullRegion::InitFrom | cyclus::QueryableBackend *
fn cyclus::NullRegion::InfileToDb
  call $1.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::NullRegion::Clone
  call new NullRegion{this.ctx_}.cyclus::NullRegion::InitFrom(this) IF T
  ret return(new NullRegion{this.ctx_}) IF T
fn cyclus::NullRegion::InitInv
fn cyclus::NullRegion::SnapshotInv
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
fn cyclus::NullRegion::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Predator::Predator
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.manager_(this) IF T
  set this.kind_("Facility") IF T
  set this.commod("") IF T
  set this.cycpp_shape_commod(vector{}) IF T
  set this.prey("") IF T
  set this.cycpp_shape_prey(vector{}) IF T
  set this.cycpp_shape_full(vector{}) IF T
  set this.cycpp_shape_hunt_freq(vector{}) IF T
  set this.cycpp_shape_hunt_cap(vector{}) IF T
  set this.cycpp_shape_success(vector{}) IF T
  set this.cycpp_shape_consumed(vector{}) IF T
  set this.cycpp_shape_hunt_factor(vector{}) IF T
  set this.cycpp_shape_age(vector{}) IF T
  set this.cycpp_shape_lifespan(vector{}) IF T
  set this.cycpp_shape_dead(vector{}) IF T
  set this.cycpp_shape_nchildren(vector{}) IF T
  set this.cycpp_shape_birth_and_death(vector{}) IF T
fn cyclus::Predator::EnterNotify
  call this.ctx_.cyclus::Context::RegisterAgent(this) IF T
  * call this.ctx_.cyclus::Context::RegisterTrader(this) IF T
  call this.ctx_.cyclus::Context::RegisterTimeListener(this) IF T
fn cyclus::Predator::Decommission
  * call this.ctx_.cyclus::Context::UnregisterTrader(this) IF T
  call this.ctx_.cyclus::Context::UnregisterTimeListener(this) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("AgentId", this.id_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("ExitTime", this.ctx_.ti_.time_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::Record() IF T
  call this.ctx_.cyclus::Context::UnregisterAgent(this) IF T
  call this.ctx_.cyclus::Context::DelAgent(this) IF T
fn cyclus::Predator::GetProductRequests
  call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Product::CreateUntracked(this.hunt_cap,""), this, this.commod, cyclus::kDefaultPref, false, NULL) IF (this.age % this.hunt_freq) == 0
  add @set<boost::shared_ptr<RequestPortfolio<Product>>>.add(new RequestPortfolio{}) IF (this.age % this.hunt_freq) == 0
  ret return(@set<boost::shared_ptr<RequestPortfolio<Product>>>) IF T
fn cyclus::Predator::AdjustProductPrefs
  call std::sort(map($0[$0.begin().first]; elem($0[$0.begin().first]).first).begin(), map($0[$0.begin().first]; elem($0[$0.begin().first]).first).end(), fn{!(%1.bidder_.manager_.id_-%2.bidder_.manager_.id_) >= 0}) IF !empty($0)
  [for phi{range(floor(((-((this.ctx_.n_prototypes_[this.prey]/this.ctx_.n_prototypes_[this.prototype_])*this.success)+1)*size($0[$0.begin().first]))))|range(floor(((-this.success+1)*size($0[$0.begin().first]))))}] put $0[$0.begin().first].put(map($0[$0.begin().first]; elem($0[$0.begin().first]).first)[idx(phi{range(floor(((-((this.ctx_.n_prototypes_[this.prey]/this.ctx_.n_prototypes_[this.prototype_])*this.success)+1)*size($0[$0.begin().first]))))|range(floor(((-this.success+1)*size($0[$0.begin().first]))))})], -1) IF !empty($0)
fn cyclus::Predator::AcceptProductTrades
  set this.consumed((fold($0; 0; (elem($0).second.quantity_+~))+this.consumed)) IF T
fn cyclus::Predator::Tick
fn cyclus::Predator::GiveBirth
  [for times(this.nchildren)] call this.ctx_.cyclus::Context::SchedBuild(NULL, this.prototype_) IF (this.consumed-this.full) >= 0 & !this.dead | (this.consumed-this.full) >= 0 & this.birth_and_death
  set this.consumed(0) IF (this.consumed-this.full) >= 0 & !this.dead | (this.consumed-this.full) >= 0 & this.birth_and_death
fn cyclus::Predator::Tock
  set this.dead(1) IF (this.age-this.lifespan) >= 0
  call this.ctx_.cyclus::Context::SchedDecom(this) IF (this.age-this.lifespan) >= 0
  [for times(this.nchildren)] call this.ctx_.cyclus::Context::SchedBuild(NULL, this.prototype_) IF !(this.age-this.lifespan) >= 0 & (this.consumed-this.full) >= 0 & !this.dead | (this.consumed-this.full) >= 0 & this.birth_and_death
  set this.consumed(0) IF !(this.age-this.lifespan) >= 0 & (this.consumed-this.full) >= 0 & !this.dead | (this.consumed-this.full) >= 0 & this.birth_and_death
  set this.age((this.age+1)) IF T
fn cyclus::Predator::SortById
  ret return(true) IF !($0.bidder_.manager_.id_-$1.bidder_.manager_.id_) >= 0
fn cyclus::Predator::~Predator
fn cyclus::Predator::version
  ret return("1.6") IF T
fn cyclus::Predator::InitFrom | cyclus::Predator *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_prey(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_full(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_freq(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_cap(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_success(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_consumed(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_factor(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_age(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_lifespan(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_dead(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_nchildren(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_and_death(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.commod) IF T
  set this.prey($0.prey) IF T
  set this.full($0.full) IF T
  set this.hunt_freq($0.hunt_freq) IF T
  set this.hunt_cap($0.hunt_cap) IF T
  set this.success($0.success) IF T
  set this.consumed($0.consumed) IF T
  set this.hunt_factor($0.hunt_factor) IF T
  set this.age($0.age) IF T
  set this.lifespan($0.lifespan) IF T
  set this.dead($0.dead) IF T
  set this.nchildren($0.nchildren) IF T
  set this.birth_and_death($0.birth_and_death) IF T
fn cyclus::Predator::InitFrom | cyclus::QueryableBackend *
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_prey(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_full(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_freq(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_cap(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_success(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_consumed(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_factor(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_age(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_lifespan(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_dead(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_nchildren(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_and_death(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.Query("Info",NULL).GetVal("commod",of(std::basic_string<char>))) IF T
  set this.prey($0.Query("Info",NULL).GetVal("prey",of(std::basic_string<char>))) IF T
  set this.full($0.Query("Info",NULL).GetVal("full",of(double))) IF T
  set this.hunt_freq($0.Query("Info",NULL).GetVal("hunt_freq",of(int))) IF T
  set this.hunt_cap($0.Query("Info",NULL).GetVal("hunt_cap",of(double))) IF T
  set this.success($0.Query("Info",NULL).GetVal("success",of(double))) IF T
  set this.consumed($0.Query("Info",NULL).GetVal("consumed",of(double))) IF T
  set this.hunt_factor($0.Query("Info",NULL).GetVal("hunt_factor",of(bool))) IF T
  set this.age($0.Query("Info",NULL).GetVal("age",of(int))) IF T
  set this.lifespan($0.Query("Info",NULL).GetVal("lifespan",of(int))) IF T
  set this.dead($0.Query("Info",NULL).GetVal("dead",of(bool))) IF T
  set this.nchildren($0.Query("Info",NULL).GetVal("nchildren",of(double))) IF T
  set this.birth_and_death($0.Query("Info",NULL).GetVal("birth_and_death",of(bool))) IF T
fn cyclus::Predator::InfileToDb
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_prey(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_full(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_freq(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_cap(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_success(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_consumed(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hunt_factor(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_age(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_lifespan(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_dead(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_nchildren(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_and_death(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.SubTree("config/*").GetString("commod",0)) IF T
  set this.prey($0.SubTree("config/*").GetString("prey",0)) IF T
  call cyclus::Query($0.SubTree("config/*"), "full", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("full"))
  set this.full(cyclus::Query($0.SubTree("config/*"),"full",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("full"))
  set this.full(1) IF empty($0.SubTree("config/*").current_node_.find("full"))
  call cyclus::Query($0.SubTree("config/*"), "hunt_freq", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("hunt_freq"))
  set this.hunt_freq(cyclus::Query($0.SubTree("config/*"),"hunt_freq",of(int))) IF !empty($0.SubTree("config/*").current_node_.find("hunt_freq"))
  set this.hunt_freq(1) IF empty($0.SubTree("config/*").current_node_.find("hunt_freq"))
  call cyclus::Query($0.SubTree("config/*"), "hunt_cap", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("hunt_cap"))
  set this.hunt_cap(cyclus::Query($0.SubTree("config/*"),"hunt_cap",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("hunt_cap"))
  set this.hunt_cap(1) IF empty($0.SubTree("config/*").current_node_.find("hunt_cap"))
  call cyclus::Query($0.SubTree("config/*"), "success", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("success"))
  set this.success(cyclus::Query($0.SubTree("config/*"),"success",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("success"))
  set this.success(1) IF empty($0.SubTree("config/*").current_node_.find("success"))
  call cyclus::Query($0.SubTree("config/*"), "consumed", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("consumed"))
  set this.consumed(cyclus::Query($0.SubTree("config/*"),"consumed",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("consumed"))
  set this.consumed(0) IF empty($0.SubTree("config/*").current_node_.find("consumed"))
  set this.hunt_factor(boost::lexical_cast($0.SubTree("config/*").GetString("hunt_factor",0),of(bool))) IF !empty($0.SubTree("config/*").current_node_.find("hunt_factor"))
  set this.hunt_factor(false) IF empty($0.SubTree("config/*").current_node_.find("hunt_factor"))
  call cyclus::Query($0.SubTree("config/*"), "age", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("age"))
  set this.age(cyclus::Query($0.SubTree("config/*"),"age",of(int))) IF !empty($0.SubTree("config/*").current_node_.find("age"))
  set this.age(0) IF empty($0.SubTree("config/*").current_node_.find("age"))
  call cyclus::Query($0.SubTree("config/*"), "lifespan", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("lifespan"))
  set this.lifespan(cyclus::Query($0.SubTree("config/*"),"lifespan",of(int))) IF !empty($0.SubTree("config/*").current_node_.find("lifespan"))
  set this.lifespan(1) IF empty($0.SubTree("config/*").current_node_.find("lifespan"))
  set this.dead(boost::lexical_cast($0.SubTree("config/*").GetString("dead",0),of(bool))) IF !empty($0.SubTree("config/*").current_node_.find("dead"))
  set this.dead(false) IF empty($0.SubTree("config/*").current_node_.find("dead"))
  call cyclus::Query($0.SubTree("config/*"), "nchildren", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("nchildren"))
  set this.nchildren(cyclus::Query($0.SubTree("config/*"),"nchildren",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("nchildren"))
  set this.nchildren(1) IF empty($0.SubTree("config/*").current_node_.find("nchildren"))
  set this.birth_and_death(boost::lexical_cast($0.SubTree("config/*").GetString("birth_and_death",0),of(bool))) IF !empty($0.SubTree("config/*").current_node_.find("birth_and_death"))
  set this.birth_and_death(false) IF empty($0.SubTree("config/*").current_node_.find("birth_and_death"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("commod", $0.SubTree("config/*").GetString("commod",0), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("prey", $0.SubTree("config/*").GetString("prey",0), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("full", cyclus::Query($0.SubTree("config/*"),"full",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("full"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("full", 1, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("full"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("hunt_freq", cyclus::Query($0.SubTree("config/*"),"hunt_freq",of(int)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("hunt_freq"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("hunt_freq", 1, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("hunt_freq"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("hunt_cap", cyclus::Query($0.SubTree("config/*"),"hunt_cap",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("hunt_cap"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("hunt_cap", 1, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("hunt_cap"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("success", cyclus::Query($0.SubTree("config/*"),"success",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("success"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("success", 1, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("success"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("consumed", cyclus::Query($0.SubTree("config/*"),"consumed",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("consumed"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("consumed", 0, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("consumed"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("hunt_factor", boost::lexical_cast($0.SubTree("config/*").GetString("hunt_factor",0),of(bool)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("hunt_factor"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("hunt_factor", false, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("hunt_factor"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("age", cyclus::Query($0.SubTree("config/*"),"age",of(int)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("age"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("age", 0, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("age"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("lifespan", cyclus::Query($0.SubTree("config/*"),"lifespan",of(int)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("lifespan"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("lifespan", 1, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("lifespan"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("dead", boost::lexical_cast($0.SubTree("config/*").GetString("dead",0),of(bool)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("dead"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("dead", false, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("dead"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("nchildren", cyclus::Query($0.SubTree("config/*"),"nchildren",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("nchildren"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("nchildren", 1, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("nchildren"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("birth_and_death", boost::lexical_cast($0.SubTree("config/*").GetString("birth_and_death",0),of(bool)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("birth_and_death"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("birth_and_death", false, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("birth_and_death"))
  call $1.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Predator::Clone
  call new Predator{this.ctx_}.cyclus::Predator::InitFrom(this) IF T
  ret return(new Predator{this.ctx_}) IF T
fn cyclus::Predator::InitInv
fn cyclus::Predator::SnapshotInv
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
fn cyclus::Predator::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::AddVal("commod", this.commod, this.cycpp_shape_commod) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("prey", this.prey, this.cycpp_shape_prey) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("full", this.full, this.cycpp_shape_full) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("hunt_freq", this.hunt_freq, this.cycpp_shape_hunt_freq) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("hunt_cap", this.hunt_cap, this.cycpp_shape_hunt_cap) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("success", this.success, this.cycpp_shape_success) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("consumed", this.consumed, this.cycpp_shape_consumed) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("hunt_factor", this.hunt_factor, this.cycpp_shape_hunt_factor) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("age", this.age, this.cycpp_shape_age) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("lifespan", this.lifespan, this.cycpp_shape_lifespan) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("dead", this.dead, this.cycpp_shape_dead) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("nchildren", this.nchildren, this.cycpp_shape_nchildren) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("birth_and_death", this.birth_and_death, this.cycpp_shape_birth_and_death) IF T
  call $0.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Predator::name
  ret return(this.prototype_ ++ "_" ++ this.id_) IF T
fn cyclus::Prey::Prey
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.manager_(this) IF T
  set this.kind_("Facility") IF T
  set this.commod("") IF T
  set this.cycpp_shape_commod(vector{}) IF T
  set this.age(0) IF T
  set this.cycpp_shape_age(vector{}) IF T
  set this.dead(0) IF T
  set this.cycpp_shape_dead(vector{}) IF T
  set this.nchildren(1) IF T
  set this.cycpp_shape_nchildren(vector{}) IF T
  set this.birth_freq(1) IF T
  set this.cycpp_shape_birth_freq(vector{}) IF T
  set this.cycpp_shape_birth_and_death(vector{}) IF T
fn cyclus::Prey::EnterNotify
  call this.ctx_.cyclus::Context::RegisterAgent(this) IF T
  * call this.ctx_.cyclus::Context::RegisterTrader(this) IF T
  call this.ctx_.cyclus::Context::RegisterTimeListener(this) IF T
fn cyclus::Prey::Decommission
  * call this.ctx_.cyclus::Context::UnregisterTrader(this) IF T
  call this.ctx_.cyclus::Context::UnregisterTimeListener(this) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("AgentId", this.id_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("ExitTime", this.ctx_.ti_.time_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::Record() IF T
  call this.ctx_.cyclus::Context::UnregisterAgent(this) IF T
  call this.ctx_.cyclus::Context::DelAgent(this) IF T
fn cyclus::Prey::Tick
fn cyclus::Prey::GiveBirth
  [for times(this.nchildren)] call this.ctx_.cyclus::Context::SchedBuild(NULL, this.prototype_) IF (this.age % this.birth_freq) == 0 & !this.dead | (this.age % this.birth_freq) == 0 & this.birth_and_death
fn cyclus::Prey::Tock
  call this.ctx_.cyclus::Context::SchedDecom(this) IF this.dead
  [for times(this.nchildren)] call this.ctx_.cyclus::Context::SchedBuild(NULL, this.prototype_) IF (this.age % this.birth_freq) == 0 & !this.dead | (this.age % this.birth_freq) == 0 & this.birth_and_death
  set this.age((this.age+1)) IF T
fn cyclus::Prey::GetProductBids
  [for $0[this.commod]] call new BidPortfolio{}.cyclus::BidPortfolio::AddBid(elem($0[this.commod]), cyclus::Product::CreateUntracked(1,""), this, false, std::numeric_limits<double>::quiet_NaN()) IF has($0,this.commod)
  call new BidPortfolio{}.cyclus::BidPortfolio::AddConstraint(CapacityConstraint<Product>{1}) IF has($0,this.commod)
  add @set<boost::shared_ptr<BidPortfolio<Product>>>.add(new BidPortfolio{}) IF has($0,this.commod)
  ret return(@set<boost::shared_ptr<BidPortfolio<Product>>>) IF T
fn cyclus::Prey::GetProductTrades
  [for $0] call cyclus::Product::Create(this, elem($0).amt, "") IF T
  [for $0] add $1.add(pair(elem($0),cyclus::Product::Create(this,elem($0).amt,""))) IF T
  throw cyclus::ValueError() IF !(cyclus::cy_eps-fold($0; 0; (elem($0).amt+~))) >= -1
  set this.dead(1) IF (cyclus::cy_eps-fold($0; 0; (elem($0).amt+~))) >= -1 & fold($0; 0; (elem($0).amt+~)) > 0
  carry (-fold($0; 0; (elem($0).amt+~))+1)
fn cyclus::Prey::~Prey
fn cyclus::Prey::version
  ret return("1.6") IF T
fn cyclus::Prey::InitFrom | cyclus::Prey *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_age(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_dead(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_nchildren(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_freq(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_and_death(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.commod) IF T
  set this.age($0.age) IF T
  set this.dead($0.dead) IF T
  set this.nchildren($0.nchildren) IF T
  set this.birth_freq($0.birth_freq) IF T
  set this.birth_and_death($0.birth_and_death) IF T
fn cyclus::Prey::InitFrom | cyclus::QueryableBackend *
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_age(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_dead(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_nchildren(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_freq(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_and_death(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.Query("Info",NULL).GetVal("commod",of(std::basic_string<char>))) IF T
  set this.age($0.Query("Info",NULL).GetVal("age",of(int))) IF T
  set this.dead($0.Query("Info",NULL).GetVal("dead",of(bool))) IF T
  set this.nchildren($0.Query("Info",NULL).GetVal("nchildren",of(int))) IF T
  set this.birth_freq($0.Query("Info",NULL).GetVal("birth_freq",of(int))) IF T
  set this.birth_and_death($0.Query("Info",NULL).GetVal("birth_and_death",of(bool))) IF T
fn cyclus::Prey::InfileToDb
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_age(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_dead(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_nchildren(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_freq(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_birth_and_death(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.SubTree("config/*").GetString("commod",0)) IF T
  call cyclus::Query($0.SubTree("config/*"), "age", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("age"))
  set this.age(cyclus::Query($0.SubTree("config/*"),"age",of(int))) IF !empty($0.SubTree("config/*").current_node_.find("age"))
  set this.age(0) IF empty($0.SubTree("config/*").current_node_.find("age"))
  set this.dead(boost::lexical_cast($0.SubTree("config/*").GetString("dead",0),of(bool))) IF !empty($0.SubTree("config/*").current_node_.find("dead"))
  set this.dead(false) IF empty($0.SubTree("config/*").current_node_.find("dead"))
  call cyclus::Query($0.SubTree("config/*"), "nchildren", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("nchildren"))
  set this.nchildren(cyclus::Query($0.SubTree("config/*"),"nchildren",of(int))) IF !empty($0.SubTree("config/*").current_node_.find("nchildren"))
  set this.nchildren(1) IF empty($0.SubTree("config/*").current_node_.find("nchildren"))
  call cyclus::Query($0.SubTree("config/*"), "birth_freq", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("birth_freq"))
  set this.birth_freq(cyclus::Query($0.SubTree("config/*"),"birth_freq",of(int))) IF !empty($0.SubTree("config/*").current_node_.find("birth_freq"))
  set this.birth_freq(1) IF empty($0.SubTree("config/*").current_node_.find("birth_freq"))
  set this.birth_and_death(boost::lexical_cast($0.SubTree("config/*").GetString("birth_and_death",0),of(bool))) IF !empty($0.SubTree("config/*").current_node_.find("birth_and_death"))
  set this.birth_and_death(true) IF empty($0.SubTree("config/*").current_node_.find("birth_and_death"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("commod", $0.SubTree("config/*").GetString("commod",0), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("age", cyclus::Query($0.SubTree("config/*"),"age",of(int)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("age"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("age", 0, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("age"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("dead", boost::lexical_cast($0.SubTree("config/*").GetString("dead",0),of(bool)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("dead"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("dead", false, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("dead"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("nchildren", cyclus::Query($0.SubTree("config/*"),"nchildren",of(int)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("nchildren"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("nchildren", 1, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("nchildren"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("birth_freq", cyclus::Query($0.SubTree("config/*"),"birth_freq",of(int)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("birth_freq"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("birth_freq", 1, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("birth_freq"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("birth_and_death", boost::lexical_cast($0.SubTree("config/*").GetString("birth_and_death",0),of(bool)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("birth_and_death"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("birth_and_death", true, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("birth_and_death"))
  call $1.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Prey::Clone
  call new Prey{this.ctx_}.cyclus::Prey::InitFrom(this) IF T
  ret return(new Prey{this.ctx_}) IF T
fn cyclus::Prey::InitInv
fn cyclus::Prey::SnapshotInv
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
fn cyclus::Prey::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::AddVal("commod", this.commod, this.cycpp_shape_commod) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("age", this.age, this.cycpp_shape_age) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("dead", this.dead, this.cycpp_shape_dead) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("nchildren", this.nchildren, this.cycpp_shape_nchildren) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("birth_freq", this.birth_freq, this.cycpp_shape_birth_freq) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("birth_and_death", this.birth_and_death, this.cycpp_shape_birth_and_death) IF T
  call $0.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Prey::name
  ret return(this.prototype_ ++ "_" ++ this.id_) IF T
fn cyclus::Sink::Sink
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.manager_(this) IF T
  set this.kind_("Facility") IF T
  set this.in_commods(vector{}) IF T
  set this.cycpp_shape_in_commods(vector{}) IF T
  set this.recipe_name("") IF T
  set this.cycpp_shape_recipe_name(vector{}) IF T
  set this.cycpp_shape_max_inv_size(vector{}) IF T
  set this.capacity(100) IF T
  set this.cycpp_shape_capacity(vector{}) IF T
  set this.inventory(toolkit::ResBuf<Resource>{}) IF T
  set this.cycpp_shape_inventory(vector{}) IF T
fn cyclus::Sink::GetMatlRequests
  call new RequestPortfolio{}.cyclus::RequestPortfolio::AddConstraint(CapacityConstraint<Material>{this.capacity}) IF !(cyclus::cy_eps-this.capacity) >= 0
  [for this.in_commods] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Material::CreateUntracked(this.capacity,this.ctx_.GetRecipe(this.recipe_name)), this, elem(this.in_commods), cyclus::kDefaultPref, false, NULL) IF !(cyclus::cy_eps-this.capacity) >= 0 & !empty(this.recipe_name)
  [for this.in_commods] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::NewBlankMaterial(this.capacity), this, elem(this.in_commods), cyclus::kDefaultPref, false, NULL) IF !(cyclus::cy_eps-this.capacity) >= 0 & empty(this.recipe_name)
  add @set<boost::shared_ptr<RequestPortfolio<Material>>>.add(new RequestPortfolio{}) IF !(cyclus::cy_eps-this.capacity) >= 0
  ret return(@set<boost::shared_ptr<RequestPortfolio<Material>>>) IF T
fn cyclus::Sink::GetProductRequests
  call new RequestPortfolio{}.cyclus::RequestPortfolio::AddConstraint(CapacityConstraint<Product>{this.capacity}) IF !(cyclus::cy_eps-this.capacity) >= 0
  [for this.in_commods] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Product::CreateUntracked(this.capacity,""), this, elem(this.in_commods), cyclus::kDefaultPref, false, NULL) IF !(cyclus::cy_eps-this.capacity) >= 0
  add @set<boost::shared_ptr<RequestPortfolio<Product>>>.add(new RequestPortfolio{}) IF !(cyclus::cy_eps-this.capacity) >= 0
  ret return(@set<boost::shared_ptr<RequestPortfolio<Product>>>) IF T
fn cyclus::Sink::AcceptMatlTrades
  [for $0] call this.inventory.cyclus::toolkit::ResBuf::Push(elem($0).second) IF T
fn cyclus::Sink::AcceptProductTrades
  [for $0] call this.inventory.cyclus::toolkit::ResBuf::Push(elem($0).second) IF T
fn cyclus::Sink::Tick
fn cyclus::Sink::Tock
fn cyclus::Sink::~Sink
fn cyclus::Sink::version
  ret return("1.6") IF T
fn cyclus::Sink::InitFrom | cyclus::Sink *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
  set this.cycpp_shape_in_commods(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_recipe_name(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_max_inv_size(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_inventory(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.in_commods($0.in_commods) IF T
  set this.recipe_name($0.recipe_name) IF T
  set this.max_inv_size($0.max_inv_size) IF T
  set this.capacity($0.capacity) IF T
  call this.inventory.cyclus::toolkit::ResBuf::capacity($0.inventory.cap_) IF T
fn cyclus::Sink::InitFrom | cyclus::QueryableBackend *
  set this.cycpp_shape_in_commods(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_recipe_name(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_max_inv_size(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_inventory(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.in_commods($0.Query("Info",NULL).GetVal("in_commods",of(std::vector<std::basic_string<char>>))) IF T
  set this.recipe_name($0.Query("Info",NULL).GetVal("recipe_name",of(std::basic_string<char>))) IF T
  set this.max_inv_size($0.Query("Info",NULL).GetVal("max_inv_size",of(double))) IF T
  set this.capacity($0.Query("Info",NULL).GetVal("capacity",of(double))) IF T
  call this.inventory.cyclus::toolkit::ResBuf::capacity($0.Query("Info",NULL).GetVal("max_inv_size",of(double))) IF T
fn cyclus::Sink::InfileToDb
  set this.cycpp_shape_in_commods(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_recipe_name(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_max_inv_size(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_capacity(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_inventory(vector{[-1, -1],([-1, -1]+2)}) IF T
  [for range(size($0.SubTree("config/*").SubTree("in_commods",0).current_node_.find("val")))] put @vector<basic_string<char>>.put(idx(range(size($0.SubTree("config/*").SubTree("in_commods",0).current_node_.find("val")))), $0.SubTree("config/*").SubTree("in_commods",0).GetString("val",idx(range(size($0.SubTree("config/*").SubTree("in_commods",0).current_node_.find("val")))))) IF T
  set this.in_commods(fold(range(size($0.SubTree("config/*").SubTree("in_commods",0).current_node_.find("val"))); take(@vector<basic_string<char>>,size($0.SubTree("config/*").SubTree("in_commods",0).current_node_.find("val"))); ~')) IF T
  set this.recipe_name($0.SubTree("config/*").GetString("recipe_name",0)) IF !empty($0.SubTree("config/*").current_node_.find("recipe_name"))
  set this.recipe_name("") IF empty($0.SubTree("config/*").current_node_.find("recipe_name"))
  call cyclus::Query($0.SubTree("config/*"), "max_inv_size", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  set this.max_inv_size(cyclus::Query($0.SubTree("config/*"),"max_inv_size",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  set this.max_inv_size(1e+299) IF empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  call cyclus::Query($0.SubTree("config/*"), "capacity", of(double)) IF T
  set this.capacity(cyclus::Query($0.SubTree("config/*"),"capacity",of(double))) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("in_commods", fold(range(size($0.SubTree("config/*").SubTree("in_commods",0).current_node_.find("val"))); take(@vector<basic_string<char>>,size($0.SubTree("config/*").SubTree("in_commods",0).current_node_.find("val"))); ~'), vector{[-1, -1],([-1, -1]+2)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("recipe_name", $0.SubTree("config/*").GetString("recipe_name",0), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("recipe_name"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("recipe_name", "", vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("recipe_name"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("max_inv_size", cyclus::Query($0.SubTree("config/*"),"max_inv_size",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("max_inv_size", 1e+299, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("max_inv_size"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("capacity", cyclus::Query($0.SubTree("config/*"),"capacity",of(double)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Sink::Clone
  call new Sink{this.ctx_}.cyclus::Sink::InitFrom(this) IF T
  ret return(new Sink{this.ctx_}) IF T
fn cyclus::Sink::InitInv
  call this.inventory.cyclus::toolkit::ResBuf::Push($0["inventory"]) IF T
fn cyclus::Sink::SnapshotInv
  call this.inventory.cyclus::toolkit::ResBuf::PopN(size(this.inventory.rs_)) IF T
  put @map<basic_string<char>, vector<boost::shared_ptr<Resource>>>.put("inventory", this.inventory.PopN(size(this.inventory.rs_))) IF T
  call this.inventory.cyclus::toolkit::ResBuf::Push(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>["inventory"]) IF T
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
  seq 0<2
fn cyclus::Sink::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::AddVal("in_commods", this.in_commods, this.cycpp_shape_in_commods) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("recipe_name", this.recipe_name, this.cycpp_shape_recipe_name) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("max_inv_size", this.max_inv_size, this.cycpp_shape_max_inv_size) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("capacity", this.capacity, this.cycpp_shape_capacity) IF T
  call $0.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Sink::Capacity | const
  ret return(this.capacity) IF T
fn cyclus::Sink::Capacity | double
  set this.capacity($0) IF T
fn cyclus::Sink::AddIncommod
  add this.in_commods.add($0) IF T
fn cyclus::Sink::recipe | std::basic_string<char>
  set this.recipe_name($0) IF T
fn cyclus::Sink::recipe | const
  ret return(this.recipe_name) IF T
fn cyclus::Sink::Build
  throw cyclus::KeyError() IF $0 == this
  set this.parent_($0) IF $0 & !$0 == this
  set this.parent_id_($0.id_) IF $0 & !$0 == this
  add $0.children_.add(this) IF $0 & !$0 == this & !has($0.children_,this)
  set this.enter_time_(this.ctx_.ti_.time_) IF !$0 == this
  call this.cyclus::Agent::EnterNotify() IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("AgentId", this.id_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Kind", this.kind_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Spec", this.spec_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Prototype", this.prototype_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", $0.id_) IF $0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", this.parent_id_) IF !$0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Lifetime", this.lifetime_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("EnterTime", this.ctx_.ti_.time_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::Record() IF !$0 == this
  call this.ctx_.cyclus::Context::SchedDecom(this, -1) IF !$0 == this & this.lifetime_ == -1 & this.lifetime_ >= 0
  call this.ctx_.cyclus::Context::SchedDecom(this, (this.ctx_.ti_.time_+this.lifetime_-1)) IF !$0 == this & !this.lifetime_ == -1 & this.lifetime_ >= 0
  seq 1<5 2<5 3<5 4<5
fn cyclus::Source::Source
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.manager_(this) IF T
  set this.kind_("Facility") IF T
  set this.commod("") IF T
  set this.cycpp_shape_commod(vector{}) IF T
  set this.recipe_name("") IF T
  set this.cycpp_shape_recipe_name(vector{}) IF T
  set this.capacity(100) IF T
  set this.cycpp_shape_capacity(vector{}) IF T
fn cyclus::Source::Tick
fn cyclus::Source::Tock
fn cyclus::Source::GetOffer
  ret return($0) IF empty(this.recipe_name)
  ret return(cyclus::Material::CreateUntracked(min($0.qty_,this.capacity),this.ctx_.GetRecipe(this.recipe_name))) IF !empty(this.recipe_name)
fn cyclus::Source::GetMatlBids
  [for $0[this.commod]] call new BidPortfolio{}.cyclus::BidPortfolio::AddBid(elem($0[this.commod]), elem($0[this.commod]).target_, this, false, std::numeric_limits<double>::quiet_NaN()) IF empty(this.recipe_name) & has($0,this.commod)
  [for $0[this.commod]] call new BidPortfolio{}.cyclus::BidPortfolio::AddBid(elem($0[this.commod]), cyclus::Material::CreateUntracked(min(elem($0[this.commod]).target_.qty_,this.capacity),this.ctx_.GetRecipe(this.recipe_name)), this, false, std::numeric_limits<double>::quiet_NaN()) IF !empty(this.recipe_name) & has($0,this.commod)
  call new BidPortfolio{}.cyclus::BidPortfolio::AddConstraint(CapacityConstraint<Material>{this.capacity}) IF has($0,this.commod)
  add @set<boost::shared_ptr<BidPortfolio<Material>>>.add(new BidPortfolio{}) IF has($0,this.commod)
  ret return(@set<boost::shared_ptr<BidPortfolio<Material>>>) IF T
fn cyclus::Source::GetMatlTrades
  [for $0] call cyclus::Material::Create(this, elem($0).amt, elem($0).request.target_.comp()) IF empty(this.recipe_name)
  [for $0] call cyclus::Material::Create(this, elem($0).amt, this.ctx_.GetRecipe(this.recipe_name)) IF !empty(this.recipe_name)
  [for $0] add $1.add(pair(elem($0),cyclus::Material::Create(this,elem($0).amt,elem($0).request.target_.comp()))) IF empty(this.recipe_name)
  [for $0] add $1.add(pair(elem($0),cyclus::Material::Create(this,elem($0).amt,this.ctx_.GetRecipe(this.recipe_name)))) IF !empty(this.recipe_name)
  throw cyclus::ValueError() IF !(cyclus::cy_eps-fold($0; 0; (elem($0).amt+~))+this.capacity) >= 0
  carry (-fold($0; 0; (elem($0).amt+~))+this.capacity)
fn cyclus::Source::~Source
fn cyclus::Source::version
  ret return("1.6") IF T
fn cyclus::Source::InitFrom | cyclus::Source *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_recipe_name(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_capacity(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.commod) IF T
  set this.recipe_name($0.recipe_name) IF T
  set this.capacity($0.capacity) IF T
fn cyclus::Source::InitFrom | cyclus::QueryableBackend *
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_recipe_name(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_capacity(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.Query("Info",NULL).GetVal("commod",of(std::basic_string<char>))) IF T
  set this.recipe_name($0.Query("Info",NULL).GetVal("recipe_name",of(std::basic_string<char>))) IF T
  set this.capacity($0.Query("Info",NULL).GetVal("capacity",of(double))) IF T
fn cyclus::Source::InfileToDb
  set this.cycpp_shape_commod(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_recipe_name(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_capacity(vector{[-1],([-1]+1)}) IF T
  set this.commod($0.SubTree("config/*").GetString("commod",0)) IF T
  set this.recipe_name($0.SubTree("config/*").GetString("recipe_name",0)) IF !empty($0.SubTree("config/*").current_node_.find("recipe_name"))
  set this.recipe_name("") IF empty($0.SubTree("config/*").current_node_.find("recipe_name"))
  call cyclus::Query($0.SubTree("config/*"), "capacity", of(double)) IF T
  set this.capacity(cyclus::Query($0.SubTree("config/*"),"capacity",of(double))) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("commod", $0.SubTree("config/*").GetString("commod",0), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("recipe_name", $0.SubTree("config/*").GetString("recipe_name",0), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("recipe_name"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("recipe_name", "", vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("recipe_name"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("capacity", cyclus::Query($0.SubTree("config/*"),"capacity",of(double)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Source::Clone
  call new Source{this.ctx_}.cyclus::Source::InitFrom(this) IF T
  ret return(new Source{this.ctx_}) IF T
fn cyclus::Source::InitInv
fn cyclus::Source::SnapshotInv
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
fn cyclus::Source::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::AddVal("commod", this.commod, this.cycpp_shape_commod) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("recipe_name", this.recipe_name, this.cycpp_shape_recipe_name) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("capacity", this.capacity, this.cycpp_shape_capacity) IF T
  call $0.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::Source::commodity | std::basic_string<char>
  set this.commod($0) IF T
fn cyclus::Source::commodity | const
  ret return(this.commod) IF T
fn cyclus::Source::Capacity | double
  set this.capacity($0) IF T
fn cyclus::Source::Capacity | const
  ret return(this.capacity) IF T
fn cyclus::Source::recipe | std::basic_string<char>
  set this.recipe_name($0) IF T
fn cyclus::Source::recipe | const
  ret return(this.recipe_name) IF T
fn cyclus::Source::Build
  throw cyclus::KeyError() IF $0 == this
  set this.parent_($0) IF $0 & !$0 == this
  set this.parent_id_($0.id_) IF $0 & !$0 == this
  add $0.children_.add(this) IF $0 & !$0 == this & !has($0.children_,this)
  set this.enter_time_(this.ctx_.ti_.time_) IF !$0 == this
  call this.cyclus::Agent::EnterNotify() IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("AgentId", this.id_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Kind", this.kind_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Spec", this.spec_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Prototype", this.prototype_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", $0.id_) IF $0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("ParentId", this.parent_id_) IF !$0 & !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("Lifetime", this.lifetime_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::AddVal("EnterTime", this.ctx_.ti_.time_) IF !$0 == this
  call this.ctx_.rec_.NewDatum("AgentEntry").cyclus::Datum::Record() IF !$0 == this
  call this.ctx_.cyclus::Context::SchedDecom(this, -1) IF !$0 == this & this.lifetime_ == -1 & this.lifetime_ >= 0
  call this.ctx_.cyclus::Context::SchedDecom(this, (this.ctx_.ti_.time_+this.lifetime_-1)) IF !$0 == this & !this.lifetime_ == -1 & this.lifetime_ >= 0
  seq 1<5 2<5 3<5 4<5
fn cyclus::ConstructKFacility
  ret return(new KFacility{$0}) IF T
fn cyclus::ConstructNullInst
  ret return(new NullInst{$0}) IF T
fn cyclus::ConstructNullRegion
  ret return(new NullRegion{$0}) IF T
fn cyclus::ConstructPredator
  ret return(new Predator{$0}) IF T
fn cyclus::ConstructPrey
  ret return(new Prey{$0}) IF T
fn cyclus::ConstructSink
  ret return(new Sink{$0}) IF T
fn cyclus::ConstructSource
  ret return(new Source{$0}) IF T
