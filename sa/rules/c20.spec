fn cyclus::GreedySolver::GreedySolver | bool; cyclus::GreedyPreconditioner *
  stop: GreedilySatisfySet
  set this.exclusive_orders_($0) IF T
  set this.verbose_(false) IF T
  set this.sim_ctx_(NULL) IF T
  set this.conditioner_($1) IF T
  set this.n_qty_(map{}) IF T
  set this.grp_caps_(map{}) IF T
fn cyclus::GreedySolver::GreedySolver | bool
  stop: GreedilySatisfySet
  set this.exclusive_orders_($0) IF T
  set this.verbose_(false) IF T
  set this.sim_ctx_(NULL) IF T
  set this.n_qty_(map{}) IF T
  set this.grp_caps_(map{}) IF T
  set this.conditioner_(new GreedyPreconditioner{}) IF T
fn cyclus::GreedySolver::GreedySolver | cyclus::GreedyPreconditioner *
  stop: GreedilySatisfySet
  set this.exclusive_orders_(true) IF T
  set this.verbose_(false) IF T
  set this.sim_ctx_(NULL) IF T
  set this.conditioner_($0) IF T
  set this.n_qty_(map{}) IF T
  set this.grp_caps_(map{}) IF T
fn cyclus::GreedySolver::GreedySolver | 
  stop: GreedilySatisfySet
  set this.exclusive_orders_(true) IF T
  set this.verbose_(false) IF T
  set this.sim_ctx_(NULL) IF T
  set this.n_qty_(map{}) IF T
  set this.grp_caps_(map{}) IF T
  set this.conditioner_(new GreedyPreconditioner{}) IF T
fn cyclus::GreedySolver::~GreedySolver
  stop: GreedilySatisfySet
  delete delete(this.conditioner_) IF this.conditioner_
fn cyclus::GreedySolver::Condition
  stop: GreedilySatisfySet
  call this.conditioner_.cyclus::GreedyPreconditioner::Condition(this.graph_) IF this.conditioner_
fn cyclus::GreedySolver::Init
  stop: GreedilySatisfySet
  [for this.graph_.request_groups_] [for elem(this.graph_.request_groups_).nodes_] put this.n_qty_.put(elem(elem(this.graph_.request_groups_).nodes_), 0) IF T
  [for this.graph_.request_groups_] put this.grp_caps_.put(elem(this.graph_.request_groups_), elem(this.graph_.request_groups_).capacities_) IF T
  [for this.graph_.supply_groups_] [for elem(this.graph_.supply_groups_).nodes_] put this.n_qty_.put(elem(elem(this.graph_.supply_groups_).nodes_), 0) IF T
  [for this.graph_.supply_groups_] put this.grp_caps_.put(elem(this.graph_.supply_groups_), elem(this.graph_.supply_groups_).capacities_) IF T
fn cyclus::GreedySolver::SolveGraph
  stop: GreedilySatisfySet
  call this.conditioner_.cyclus::GreedyPreconditioner::Condition(this.graph_) IF this.conditioner_
  set this.unmatched_(0) IF T
  del this.n_qty_.clear() IF T
  [for this.graph_.request_groups_'] [for elem(this.graph_.request_groups_').nodes_] put this.n_qty_.put(elem(elem(this.graph_.request_groups_').nodes_), 0) IF T
  [for this.graph_.request_groups_'] put this.grp_caps_.put(elem(this.graph_.request_groups_'), elem(this.graph_.request_groups_').capacities_) IF T
  [for this.graph_.supply_groups_] [for elem(this.graph_.supply_groups_).nodes_] put this.n_qty_.put(elem(elem(this.graph_.supply_groups_).nodes_), 0) IF T
  [for this.graph_.supply_groups_] put this.grp_caps_.put(elem(this.graph_.supply_groups_), elem(this.graph_.supply_groups_).capacities_) IF T
  [for this.graph_.request_groups_'] call this.cyclus::GreedySolver::GreedilySatisfySet(elem(this.graph_.request_groups_')) IF T
  set this.obj_((((1.1*fold(this.graph_.arcs_; 0; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & !this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(1/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).exclusive_ | elem(this.graph_.arcs_).excl_val_ >= 1 & !this.exclusive_orders_:max((1/elem(this.graph_.arcs_).pref_),~) ; elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max((elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_),~)))*0')+0')) IF T
  ret return((((1.1*fold(this.graph_.arcs_; 0; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & !this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(1/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).exclusive_ | elem(this.graph_.arcs_).excl_val_ >= 1 & !this.exclusive_orders_:max((1/elem(this.graph_.arcs_).pref_),~) ; elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max((elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_),~)))*0')+0')) IF T
  seq 1<7 2<3 2<5 2<7 3<7 4<7 5<7 6<7 7<8
fn cyclus::GreedySolver::Capacity | const cyclus::Arc &; double; double
  stop: GreedilySatisfySet
  throw cyclus::StateError() IF !$0.unode_.lock().group | !$0.vnode_.lock().group
  [for $0.unode_.lock().unit_capacities[$0]] add @vector<double>.add(std::numeric_limits<double>::max()) IF $0.unode_.lock().group & !empty($0.unode_.lock().unit_capacities[$0]) & std::numeric_limits<double>::max() == this.grp_caps_[$0.unode_.lock().group][idx($0.unode_.lock().unit_capacities[$0])]
  [for $0.unode_.lock().unit_capacities[$0]] add @vector<double>.add((this.grp_caps_[$0.unode_.lock().group][idx($0.unode_.lock().unit_capacities[$0])]/elem($0.unode_.lock().unit_capacities[$0]))) IF $0.unode_.lock().group & !empty($0.unode_.lock().unit_capacities[$0]) & !std::numeric_limits<double>::max() == this.grp_caps_[$0.unode_.lock().group][idx($0.unode_.lock().unit_capacities[$0])]
  [for $0.vnode_.lock().unit_capacities[$0]] add @vector<double>.add(std::numeric_limits<double>::max()) IF $0.unode_.lock().group & $0.vnode_.lock().group & !empty($0.vnode_.lock().unit_capacities[$0]) & std::numeric_limits<double>::max() == this.grp_caps_[$0.vnode_.lock().group][idx($0.vnode_.lock().unit_capacities[$0])]
  [for $0.vnode_.lock().unit_capacities[$0]] add @vector<double>.add((this.grp_caps_[$0.vnode_.lock().group][idx($0.vnode_.lock().unit_capacities[$0])]/elem($0.vnode_.lock().unit_capacities[$0]))) IF $0.unode_.lock().group & $0.vnode_.lock().group & !empty($0.vnode_.lock().unit_capacities[$0]) & !std::numeric_limits<double>::max() == this.grp_caps_[$0.vnode_.lock().group][idx($0.vnode_.lock().unit_capacities[$0])]
  ret return(min(($0.unode_.lock().qty-$1),($0.vnode_.lock().qty-$2))) IF $0.unode_.lock().group & $0.vnode_.lock().group & empty($0.unode_.lock().unit_capacities[$0]) & empty($0.vnode_.lock().unit_capacities[$0])
  ret return(min(($0.unode_.lock().qty-$1),($0.vnode_.lock().qty-$2),std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.unode_.lock().group & $0.vnode_.lock().group & empty($0.unode_.lock().unit_capacities[$0]) & !empty($0.vnode_.lock().unit_capacities[$0])
  ret return(min(($0.unode_.lock().qty-$1),($0.vnode_.lock().qty-$2),std::max_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.unode_.lock().group & $0.vnode_.lock().group & !empty($0.unode_.lock().unit_capacities[$0]) & empty($0.vnode_.lock().unit_capacities[$0])
  ret return(min(($0.unode_.lock().qty-$1),($0.vnode_.lock().qty-$2),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.unode_.lock().group & $0.vnode_.lock().group & !empty($0.unode_.lock().unit_capacities[$0]) & !empty($0.vnode_.lock().unit_capacities[$0])
fn cyclus::GreedySolver::Capacity | boost::shared_ptr<cyclus::ExchangeNode>; const cyclus::Arc &; bool; double
  stop: GreedilySatisfySet
  throw cyclus::StateError() IF !$0.group
  ret return(($0.qty-$3)) IF $0.group & empty($0.unit_capacities[$1])
  [for $0.unit_capacities[$1]] add @vector<double>.add(std::numeric_limits<double>::max()) IF $0.group & !empty($0.unit_capacities[$1]) & std::numeric_limits<double>::max() == this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]
  [for $0.unit_capacities[$1]] add @vector<double>.add((this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]/elem($0.unit_capacities[$1]))) IF $0.group & !empty($0.unit_capacities[$1]) & !std::numeric_limits<double>::max() == this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]
  ret return(min(($0.qty-$3),std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.group & $2 & !empty($0.unit_capacities[$1])
  ret return(min(($0.qty-$3),std::max_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.group & !$2 & !empty($0.unit_capacities[$1])
fn cyclus::GreedySolver::GetCaps
  stop: GreedilySatisfySet
  [for $0.nodes_] put this.n_qty_.put(elem($0.nodes_), 0) IF T
  put this.grp_caps_.put($0, $0.capacities_) IF T
fn cyclus::GreedySolver::UpdateObj
  stop: GreedilySatisfySet
  set this.obj_((($0/$1)+this.obj_)) IF T
fn cyclus::GreedySolver::UpdateCapacity
  stop: GreedilySatisfySet
  [for this.grp_caps_[$0.group]] put this.grp_caps_[$0.group].put(idx(this.grp_caps_[$0.group]), (-($0.unit_capacities[$1][idx(this.grp_caps_[$0.group])]*$2)+elem(this.grp_caps_[$0.group]))) IF !elem(this.grp_caps_[$0.group]) == std::numeric_limits<double>::max()
  throw cyclus::ValueError() IF !($0.qty-$2+cyclus::cy_eps) >= 0
fn cyclus::GreedySolver::Capacity | const cyclus::Arc &
  stop: GreedilySatisfySet
  throw cyclus::StateError() IF !$0.unode_.lock().group | !$0.vnode_.lock().group
  [for $0.unode_.lock().unit_capacities[$0]] add @vector<double>.add(std::numeric_limits<double>::max()) IF $0.unode_.lock().group & !empty($0.unode_.lock().unit_capacities[$0]) & std::numeric_limits<double>::max() == this.grp_caps_[$0.unode_.lock().group][idx($0.unode_.lock().unit_capacities[$0])]
  [for $0.unode_.lock().unit_capacities[$0]] add @vector<double>.add((this.grp_caps_[$0.unode_.lock().group][idx($0.unode_.lock().unit_capacities[$0])]/elem($0.unode_.lock().unit_capacities[$0]))) IF $0.unode_.lock().group & !empty($0.unode_.lock().unit_capacities[$0]) & !std::numeric_limits<double>::max() == this.grp_caps_[$0.unode_.lock().group][idx($0.unode_.lock().unit_capacities[$0])]
  [for $0.vnode_.lock().unit_capacities[$0]] add @vector<double>.add(std::numeric_limits<double>::max()) IF $0.unode_.lock().group & $0.vnode_.lock().group & !empty($0.vnode_.lock().unit_capacities[$0]) & std::numeric_limits<double>::max() == this.grp_caps_[$0.vnode_.lock().group][idx($0.vnode_.lock().unit_capacities[$0])]
  [for $0.vnode_.lock().unit_capacities[$0]] add @vector<double>.add((this.grp_caps_[$0.vnode_.lock().group][idx($0.vnode_.lock().unit_capacities[$0])]/elem($0.vnode_.lock().unit_capacities[$0]))) IF $0.unode_.lock().group & $0.vnode_.lock().group & !empty($0.vnode_.lock().unit_capacities[$0]) & !std::numeric_limits<double>::max() == this.grp_caps_[$0.vnode_.lock().group][idx($0.vnode_.lock().unit_capacities[$0])]
  ret return(min($0.unode_.lock().qty,$0.vnode_.lock().qty)) IF $0.unode_.lock().group & $0.vnode_.lock().group & empty($0.unode_.lock().unit_capacities[$0]) & empty($0.vnode_.lock().unit_capacities[$0])
  ret return(min($0.unode_.lock().qty,$0.vnode_.lock().qty,std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.unode_.lock().group & $0.vnode_.lock().group & empty($0.unode_.lock().unit_capacities[$0]) & !empty($0.vnode_.lock().unit_capacities[$0])
  ret return(min($0.unode_.lock().qty,$0.vnode_.lock().qty,std::max_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.unode_.lock().group & $0.vnode_.lock().group & !empty($0.unode_.lock().unit_capacities[$0]) & empty($0.vnode_.lock().unit_capacities[$0])
  ret return(min($0.unode_.lock().qty,$0.vnode_.lock().qty,std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.unode_.lock().group & $0.vnode_.lock().group & !empty($0.unode_.lock().unit_capacities[$0]) & !empty($0.vnode_.lock().unit_capacities[$0])
fn cyclus::GreedySolver::Capacity | boost::shared_ptr<cyclus::ExchangeNode>; const cyclus::Arc &; bool
  stop: GreedilySatisfySet
  throw cyclus::StateError() IF !$0.group
  [for $0.unit_capacities[$1]] add @vector<double>.add(std::numeric_limits<double>::max()) IF $0.group & !empty($0.unit_capacities[$1]) & std::numeric_limits<double>::max() == this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]
  [for $0.unit_capacities[$1]] add @vector<double>.add((this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]/elem($0.unit_capacities[$1]))) IF $0.group & !empty($0.unit_capacities[$1]) & !std::numeric_limits<double>::max() == this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]
  ret return($0.qty) IF $0.group & empty($0.unit_capacities[$1])
  ret return(min($0.qty,std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.group & $2 & !empty($0.unit_capacities[$1])
  ret return(min($0.qty,std::max_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.group & !$2 & !empty($0.unit_capacities[$1])
fn cyclus::GreedySolver::Capacity | boost::shared_ptr<cyclus::ExchangeNode>; const cyclus::Arc &; double
  stop: GreedilySatisfySet
  throw cyclus::StateError() IF !$0.group
  [for $0.unit_capacities[$1]] add @vector<double>.add(std::numeric_limits<double>::max()) IF $0.group & !empty($0.unit_capacities[$1]) & std::numeric_limits<double>::max() == this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]
  [for $0.unit_capacities[$1]] add @vector<double>.add((this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]/elem($0.unit_capacities[$1]))) IF $0.group & !empty($0.unit_capacities[$1]) & !std::numeric_limits<double>::max() == this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]
  ret return(($0.qty-$2)) IF $0.group & empty($0.unit_capacities[$1])
  ret return(min(($0.qty-$2),std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.group & !empty($0.unit_capacities[$1])
fn cyclus::GreedySolver::Capacity | boost::shared_ptr<cyclus::ExchangeNode>; const cyclus::Arc &
  stop: GreedilySatisfySet
  throw cyclus::StateError() IF !$0.group
  [for $0.unit_capacities[$1]] add @vector<double>.add(std::numeric_limits<double>::max()) IF $0.group & !empty($0.unit_capacities[$1]) & std::numeric_limits<double>::max() == this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]
  [for $0.unit_capacities[$1]] add @vector<double>.add((this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]/elem($0.unit_capacities[$1]))) IF $0.group & !empty($0.unit_capacities[$1]) & !std::numeric_limits<double>::max() == this.grp_caps_[$0.group][idx($0.unit_capacities[$1])]
  ret return($0.qty) IF $0.group & empty($0.unit_capacities[$1])
  ret return(min($0.qty,std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF $0.group & !empty($0.unit_capacities[$1])
fn cyclus::Capacity | const cyclus::Arc &; double; double
fn cyclus::Capacity | boost::shared_ptr<cyclus::ExchangeNode>; const cyclus::Arc &; double
fn cyclus::GreedyPreconditioner::GreedyPreconditioner | 
  set this.avg_prefs_(map{}) IF T
  set this.commod_weights_(map{}) IF T
  set this.group_weights_(map{}) IF T
fn cyclus::GreedyPreconditioner::GreedyPreconditioner | const std::map<std::basic_string<char>, double> &
  set this.avg_prefs_(map{}) IF T
  set this.commod_weights_($0) IF T
  set this.group_weights_(map{}) IF T
fn cyclus::GreedyPreconditioner::GreedyPreconditioner | const std::map<std::basic_string<char>, double> &; cyclus::GreedyPreconditioner::WgtOrder
  set this.avg_prefs_(map{}) IF T
  set this.commod_weights_($0) IF T
  set this.group_weights_(map{}) IF T
  [for $0] set elem($0).second((-elem($0).second+std::max_element($0.begin(),$0.end(),SecondLT<pair<basic_string<char>, double>>{}).second+std::min_element($0.begin(),$0.end(),SecondLT<pair<basic_string<char>, double>>{}).second)) IF $1 == cyclus::GreedyPreconditioner::REVERSE & !empty($0)
fn cyclus::GreedyPreconditioner::Condition
  del this.avg_prefs_.clear() IF T
  [for $0.request_groups_] [for elem($0.request_groups_).nodes_] put this.avg_prefs_.put(elem(elem($0.request_groups_).nodes_), (fold(elem(elem($0.request_groups_).nodes_).prefs; 0; (elem(elem(elem($0.request_groups_).nodes_).prefs).second+~))/size(elem(elem($0.request_groups_).nodes_).prefs))) IF !empty(elem(elem($0.request_groups_).nodes_).prefs)
  [for $0.request_groups_] [for elem($0.request_groups_).nodes_] put this.avg_prefs_.put(elem(elem($0.request_groups_).nodes_), 0) IF empty(elem(elem($0.request_groups_).nodes_).prefs)
  [for $0.request_groups_] call std::stable_sort(elem($0.request_groups_).nodes_.begin(), elem($0.request_groups_).nodes_.end(), fn{((((this.avg_prefs_[%1]/(this.avg_prefs_[%1]+1))+1)*this.commod_weights_[%1.commod])-(((this.avg_prefs_[%2]/(this.avg_prefs_[%2]+1))+1)*this.commod_weights_[%2.commod])) > 0 & !empty(this.commod_weights_) | ((this.avg_prefs_[%1]/(this.avg_prefs_[%1]+1))-(this.avg_prefs_[%2]/(this.avg_prefs_[%2]+1))) > 0 & empty(this.commod_weights_)}) IF T
  [for $0.request_groups_] put this.group_weights_.put(elem($0.request_groups_), (fold(elem($0.request_groups_).nodes_; 0; !empty(this.commod_weights_):((((cleared(this.avg_prefs_)[elem(elem($0.request_groups_).nodes_)]/(cleared(this.avg_prefs_)[elem(elem($0.request_groups_).nodes_)]+1))+1)*this.commod_weights_[elem(elem($0.request_groups_).nodes_).commod])+~) ; empty(this.commod_weights_):((cleared(this.avg_prefs_)[elem(elem($0.request_groups_).nodes_)]/(cleared(this.avg_prefs_)[elem(elem($0.request_groups_).nodes_)]+1))+~+1))/size(elem($0.request_groups_).nodes_))) IF !empty(elem($0.request_groups_).nodes_)
  [for $0.request_groups_] put this.group_weights_.put(elem($0.request_groups_), 0) IF empty(elem($0.request_groups_).nodes_)
  call std::stable_sort($0.request_groups_.begin(), $0.request_groups_.end(), fn{(this.group_weights_[%1]-this.group_weights_[%2]) > 0}) IF T
  del this.group_weights_.clear() IF T
  seq 0<1 0<2 4<7 5<7
fn cyclus::GreedyPreconditioner::ProcessWeights_
  [for this.commod_weights_] set elem(this.commod_weights_).second((-elem(this.commod_weights_).second+std::max_element(this.commod_weights_.begin(),this.commod_weights_.end(),SecondLT<pair<basic_string<char>, double>>{}).second+std::min_element(this.commod_weights_.begin(),this.commod_weights_.end(),SecondLT<pair<basic_string<char>, double>>{}).second)) IF $0 == cyclus::GreedyPreconditioner::REVERSE
fn cyclus::GreedyPreconditioner::NodeComp
  ret return(true) IF ((((this.avg_prefs_[$0]/(this.avg_prefs_[$0]+1))+1)*this.commod_weights_[$0.commod])-(((this.avg_prefs_[$1]/(this.avg_prefs_[$1]+1))+1)*this.commod_weights_[$1.commod])) > 0 & !empty(this.commod_weights_) | ((this.avg_prefs_[$0]/(this.avg_prefs_[$0]+1))-(this.avg_prefs_[$1]/(this.avg_prefs_[$1]+1))) > 0 & empty(this.commod_weights_)
fn cyclus::GreedyPreconditioner::GroupComp
  ret return(true) IF (this.group_weights_[$0]-this.group_weights_[$1]) > 0
fn cyclus::SumPref
  ret return(($0+$1.second)) IF T
fn cyclus::AvgPref
  ret return((fold($0.prefs; 0; (elem($0.prefs).second+~))/size($0.prefs))) IF !empty($0.prefs)
  ret return(0) IF empty($0.prefs)
fn cyclus::GroupWeight
  ret return((fold($0.nodes_; 0; !empty($1):(($1[elem($0.nodes_).commod]*(($2[elem($0.nodes_)]/($2[elem($0.nodes_)]+1))+1))+~) ; empty($1):(($2[elem($0.nodes_)]/($2[elem($0.nodes_)]+1))+~+1))/size($0.nodes_))) IF !empty($0.nodes_)
  ret return(0) IF empty($0.nodes_)
fn cyclus::NodeWeight
  ret return(($1[$0.commod]*(($2/($2+1))+1))) IF !empty($1)
  ret return((($2/($2+1))+1)) IF empty($1)
fn cyclus::ReqPrefComp
  ret return(true) IF !$0.unode_.lock().prefs[$0] == $1.unode_.lock().prefs[$1] & ($0.unode_.lock().prefs[$0]-$1.unode_.lock().prefs[$1]) > 0 | $0.unode_.lock().agent_id == $1.unode_.lock().agent_id & $0.unode_.lock().prefs[$0] == $1.unode_.lock().prefs[$1] & ($0.vnode_.lock().agent_id-$1.vnode_.lock().agent_id) >= 1 | $0.unode_.lock().prefs[$0] == $1.unode_.lock().prefs[$1] & ($0.unode_.lock().agent_id-$1.unode_.lock().agent_id) >= 1
fn cyclus::AvgPrefComp
  call cyclus::AvgPref($0) IF T
  call cyclus::AvgPref($1) IF T
  ret return(true) IF ($0.agent_id-$1.agent_id) >= 1 & cyclus::AvgPref($0) == cyclus::AvgPref($1) | (cyclus::AvgPref($0)-cyclus::AvgPref($1)) > 0 & !cyclus::AvgPref($0) == cyclus::AvgPref($1)
fn cyclus::ExchangeSolver::Cost
  default 1 = cyclus::ExchangeSolver::kDefaultExclusive
  ret return(($0.excl_val_/$0.pref_)) IF $0.exclusive_ & $1
  ret return((1/$0.pref_)) IF !$0.exclusive_ | !$1
fn cyclus::ExchangeSolver::PseudoCost | 
  ret return((1.1*fold(this.graph_.arcs_; 0; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & !this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(1/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).exclusive_ | elem(this.graph_.arcs_).excl_val_ >= 1 & !this.exclusive_orders_:max((1/elem(this.graph_.arcs_).pref_),~) ; elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max((elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_),~)))) IF T
fn cyclus::ExchangeSolver::PseudoCost | double
  ret return((($0+1)*fold(this.graph_.arcs_; 0; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & !this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(1/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).exclusive_ | elem(this.graph_.arcs_).excl_val_ >= 1 & !this.exclusive_orders_:max((1/elem(this.graph_.arcs_).pref_),~) ; elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max((elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_),~)))) IF T
fn cyclus::ExchangeSolver::PseudoCostByCap
  ret return((($0+1)*(fold(this.graph_.request_groups_; std::numeric_limits<double>::min(); fold(elem(this.graph_.request_groups_).nodes_; ~; fold(elem(elem(this.graph_.request_groups_).nodes_).prefs; ~; !elem(elem(elem(this.graph_.request_groups_).nodes_).prefs).first.exclusive_ | !this.exclusive_orders_:max((1/elem(elem(elem(this.graph_.request_groups_).nodes_).prefs).first.pref_),~) ; elem(elem(elem(this.graph_.request_groups_).nodes_).prefs).first.exclusive_ & this.exclusive_orders_:max((elem(elem(elem(this.graph_.request_groups_).nodes_).prefs).first.excl_val_/elem(elem(elem(this.graph_.request_groups_).nodes_).prefs).first.pref_),~))))/fold(this.graph_.request_groups_; fold(this.graph_.supply_groups_; std::numeric_limits<double>::max(); fold(elem(this.graph_.supply_groups_).nodes_; ~; fold(elem(elem(this.graph_.supply_groups_).nodes_).unit_capacities; ~; !empty(elem(elem(elem(this.graph_.supply_groups_).nodes_).unit_capacities).second):min(std::min_element(elem(elem(elem(this.graph_.supply_groups_).nodes_).unit_capacities).second.begin(),elem(elem(elem(this.graph_.supply_groups_).nodes_).unit_capacities).second.end()),~) ; empty(elem(elem(elem(this.graph_.supply_groups_).nodes_).unit_capacities).second):~))); fold(elem(this.graph_.request_groups_).nodes_; ~; fold(elem(elem(this.graph_.request_groups_).nodes_).unit_capacities; ~; !empty(elem(elem(elem(this.graph_.request_groups_).nodes_).unit_capacities).second):min(std::min_element(elem(elem(elem(this.graph_.request_groups_).nodes_).unit_capacities).second.begin(),elem(elem(elem(this.graph_.request_groups_).nodes_).unit_capacities).second.end()),~) ; empty(elem(elem(elem(this.graph_.request_groups_).nodes_).unit_capacities).second):~)))))) IF T
fn cyclus::ExchangeSolver::PseudoCostByPref
  ret return((($0+1)*fold(this.graph_.arcs_; 0; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & !this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(1/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max(((1/elem(this.graph_.arcs_).excl_val_)*(elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_)),~) ; !elem(this.graph_.arcs_).exclusive_ | elem(this.graph_.arcs_).excl_val_ >= 1 & !this.exclusive_orders_:max((1/elem(this.graph_.arcs_).pref_),~) ; elem(this.graph_.arcs_).excl_val_ >= 1 & elem(this.graph_.arcs_).exclusive_ & this.exclusive_orders_:max((elem(this.graph_.arcs_).excl_val_/elem(this.graph_.arcs_).pref_),~)))) IF T
fn cyclus::ExchangeSolver::ExchangeSolver
  default 0 = cyclus::ExchangeSolver::kDefaultExclusive
  set this.exclusive_orders_($0) IF T
  set this.verbose_(false) IF T
  set this.sim_ctx_(NULL) IF T
fn cyclus::ExchangeSolver::~ExchangeSolver
fn cyclus::ExchangeSolver::sim_ctx | cyclus::Context *
  set this.sim_ctx_($0) IF T
fn cyclus::ExchangeSolver::sim_ctx | 
  ret return(this.sim_ctx_) IF T
fn cyclus::ExchangeSolver::verbose
  set this.verbose_(true) IF T
fn cyclus::ExchangeSolver::graph | cyclus::ExchangeGraph *
  set this.graph_($0) IF T
fn cyclus::ExchangeSolver::graph | const
  ret return(this.graph_) IF T
fn cyclus::ExchangeSolver::Solve
  default 0 = NULL
  set this.graph_($0) IF $0
  call this.cyclus::ExchangeSolver::SolveGraph() IF T
  ret return(this.SolveGraph()) IF T
  seq 0<1
fn cyclus::ExchangeSolver::ArcCost
  ret return(($0.excl_val_/$0.pref_)) IF $0.exclusive_ & this.exclusive_orders_
  ret return((1/$0.pref_)) IF !$0.exclusive_ | !this.exclusive_orders_
fn cyclus::operator==
  ret return(true) IF $0.commod == $1.commod & !$0.exclusive & $0.group == $1.group & $0.qty == $1.qty & $0.unit_capacities == $1.unit_capacities & !$1.exclusive | $0.commod == $1.commod & $0.exclusive & $0.group == $1.group & $0.qty == $1.qty & $0.unit_capacities == $1.unit_capacities & $1.exclusive
fn cyclus::GreedySolver::GreedilySatisfySet
  call std::stable_sort($0.nodes_.begin(), $0.nodes_.end(), fn{!(fold(%1.prefs; 0; (elem(%1.prefs).second+~))/size(%1.prefs)) == 0 & (fold(%1.prefs; 0; (elem(%1.prefs).second+~))/size(%1.prefs)) > 0 & !empty(%1.prefs) & empty(%2.prefs) | !(fold(%2.prefs; 0; (elem(%2.prefs).second+~))/size(%2.prefs)) == 0 & !(fold(%2.prefs; 0; (elem(%2.prefs).second+~))/size(%2.prefs)) >= 0 & empty(%1.prefs) & !empty(%2.prefs) | (%1.agent_id-%2.agent_id) >= 1 & (fold(%1.prefs; 0; (elem(%1.prefs).second+~))/size(%1.prefs)) == (fold(%2.prefs; 0; (elem(%2.prefs).second+~))/size(%2.prefs)) & !empty(%1.prefs) & !empty(%2.prefs) | (%1.agent_id-%2.agent_id) >= 1 & (fold(%1.prefs; 0; (elem(%1.prefs).second+~))/size(%1.prefs)) == 0 & empty(%2.prefs) | (%1.agent_id-%2.agent_id) >= 1 & (fold(%2.prefs; 0; (elem(%2.prefs).second+~))/size(%2.prefs)) == 0 & empty(%1.prefs) | (%1.agent_id-%2.agent_id) >= 1 & empty(%1.prefs) & empty(%2.prefs) | ((fold(%1.prefs; 0; (elem(%1.prefs).second+~))/size(%1.prefs))-(fold(%2.prefs; 0; (elem(%2.prefs).second+~))/size(%2.prefs))) > 0 & !(fold(%1.prefs; 0; (elem(%1.prefs).second+~))/size(%1.prefs)) == (fold(%2.prefs; 0; (elem(%2.prefs).second+~))/size(%2.prefs)) & !empty(%1.prefs) & !empty(%2.prefs)}) IF T
  [for while] call std::stable_sort(this.graph_.node_arc_map_[~].begin(), this.graph_.node_arc_map_[~].end(), fn{!%1.unode_.lock().agent_id == %2.unode_.lock().agent_id & %1.unode_.lock().prefs[%1] == %2.unode_.lock().prefs[%2] & !(%1.unode_.lock().agent_id-%2.unode_.lock().agent_id) >= 1 | !%1.unode_.lock().prefs[%1] == %2.unode_.lock().prefs[%2] & !(%1.unode_.lock().prefs[%1]-%2.unode_.lock().prefs[%2]) > 0 | %1.unode_.lock().prefs[%1] == %2.unode_.lock().prefs[%2] & !(%1.unode_.lock().agent_id-%2.unode_.lock().agent_id) >= 1 & !(%1.vnode_.lock().agent_id-%2.vnode_.lock().agent_id) >= 1:false | !%1.unode_.lock().prefs[%1] == %2.unode_.lock().prefs[%2] & (%1.unode_.lock().prefs[%1]-%2.unode_.lock().prefs[%2]) > 0 | %1.unode_.lock().agent_id == %2.unode_.lock().agent_id & %1.unode_.lock().prefs[%1] == %2.unode_.lock().prefs[%2] & (%1.vnode_.lock().agent_id-%2.vnode_.lock().agent_id) >= 1 | %1.unode_.lock().prefs[%1] == %2.unode_.lock().prefs[%2] & (%1.unode_.lock().agent_id-%2.unode_.lock().agent_id) >= 1:true | F:false | F:true | T: call %1.unode_.boost::weak_ptr::lock() | T: call %1.vnode_.boost::weak_ptr::lock() | T: call %2.unode_.boost::weak_ptr::lock() | T: call %2.vnode_.boost::weak_ptr::lock()}) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & has(this.graph_.node_arc_map_,~)
  [for while] [for while] throw cyclus::StateError() IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.unode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.vnode_.lock().group
  [for while] [for while] [for ~.unode_.lock().unit_capacities[~]] add @vector<double>.add(std::numeric_limits<double>::max()) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & std::numeric_limits<double>::max() == this.grp_caps_[~.unode_.lock().group][idx(~.unode_.lock().unit_capacities[~])] & !this.graph_.node_arc_map_[~].end() == ~ & ~.unode_.lock().group
  [for while] [for while] [for ~.unode_.lock().unit_capacities[~]] add @vector<double>.add((this.grp_caps_[~.unode_.lock().group][idx(~.unode_.lock().unit_capacities[~])]/elem(~.unode_.lock().unit_capacities[~]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !std::numeric_limits<double>::max() == this.grp_caps_[~.unode_.lock().group][idx(~.unode_.lock().unit_capacities[~])] & !this.graph_.node_arc_map_[~].end() == ~ & ~.unode_.lock().group
  [for while] [for while] [for ~.vnode_.lock().unit_capacities[~]] add @vector<double>.add(std::numeric_limits<double>::max()) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & std::numeric_limits<double>::max() == this.grp_caps_[~.vnode_.lock().group][idx(~.vnode_.lock().unit_capacities[~])] & !this.graph_.node_arc_map_[~].end() == ~ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for ~.vnode_.lock().unit_capacities[~]] add @vector<double>.add((this.grp_caps_[~.vnode_.lock().group][idx(~.vnode_.lock().unit_capacities[~])]/elem(~.vnode_.lock().unit_capacities[~]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !std::numeric_limits<double>::max() == this.grp_caps_[~.vnode_.lock().group][idx(~.vnode_.lock().unit_capacities[~])] & !this.graph_.node_arc_map_[~].end() == ~ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.unode_.lock().group]] put this.grp_caps_[~.unode_.lock().group].put(idx(this.grp_caps_[~.unode_.lock().group]), elem(this.grp_caps_[~.unode_.lock().group])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !cyclus::cy_eps >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !cyclus::cy_eps >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !cyclus::cy_eps >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !cyclus::cy_eps >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.unode_.lock().group]] put this.grp_caps_[~.unode_.lock().group].put(idx(this.grp_caps_[~.unode_.lock().group]), (-(~.excl_val_*~.unode_.lock().unit_capacities[~][idx(this.grp_caps_[~.unode_.lock().group])])+elem(this.grp_caps_[~.unode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.unode_.lock().group]] put this.grp_caps_[~.unode_.lock().group].put(idx(this.grp_caps_[~.unode_.lock().group]), (-(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))*~.unode_.lock().unit_capacities[~][idx(this.grp_caps_[~.unode_.lock().group])])+elem(this.grp_caps_[~.unode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.unode_.lock().group]] put this.grp_caps_[~.unode_.lock().group].put(idx(this.grp_caps_[~.unode_.lock().group]), (-(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))*~.unode_.lock().unit_capacities[~][idx(this.grp_caps_[~.unode_.lock().group])])+elem(this.grp_caps_[~.unode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.unode_.lock().group]] put this.grp_caps_[~.unode_.lock().group].put(idx(this.grp_caps_[~.unode_.lock().group]), (-(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))*~.unode_.lock().unit_capacities[~][idx(this.grp_caps_[~.unode_.lock().group])])+elem(this.grp_caps_[~.unode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.unode_.lock().group]] put this.grp_caps_[~.unode_.lock().group].put(idx(this.grp_caps_[~.unode_.lock().group]), (-(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))*~.unode_.lock().unit_capacities[~][idx(this.grp_caps_[~.unode_.lock().group])])+elem(this.grp_caps_[~.unode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !elem(this.grp_caps_[~.unode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] throw cyclus::ValueError() IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !(cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !(cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !(cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !(cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !(cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !(cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !(cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !(cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.unode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps+~.unode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps+~.unode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps+~.unode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps+~.unode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.vnode_.lock().group]] put this.grp_caps_[~.vnode_.lock().group].put(idx(this.grp_caps_[~.vnode_.lock().group]), elem(this.grp_caps_[~.vnode_.lock().group])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.vnode_.lock().group]] put this.grp_caps_[~.vnode_.lock().group].put(idx(this.grp_caps_[~.vnode_.lock().group]), (-(~.excl_val_*~.vnode_.lock().unit_capacities[~][idx(this.grp_caps_[~.vnode_.lock().group])])+elem(this.grp_caps_[~.vnode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.vnode_.lock().group]] put this.grp_caps_[~.vnode_.lock().group].put(idx(this.grp_caps_[~.vnode_.lock().group]), (-(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))*~.vnode_.lock().unit_capacities[~][idx(this.grp_caps_[~.vnode_.lock().group])])+elem(this.grp_caps_[~.vnode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.unode_.lock().qty) >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.vnode_.lock().group]] put this.grp_caps_[~.vnode_.lock().group].put(idx(this.grp_caps_[~.vnode_.lock().group]), (-(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))*~.vnode_.lock().unit_capacities[~][idx(this.grp_caps_[~.vnode_.lock().group])])+elem(this.grp_caps_[~.vnode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.vnode_.lock().group]] put this.grp_caps_[~.vnode_.lock().group].put(idx(this.grp_caps_[~.vnode_.lock().group]), (-(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))*~.vnode_.lock().unit_capacities[~][idx(this.grp_caps_[~.vnode_.lock().group])])+elem(this.grp_caps_[~.vnode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] [for this.grp_caps_[~.vnode_.lock().group]] put this.grp_caps_[~.vnode_.lock().group].put(idx(this.grp_caps_[~.vnode_.lock().group]), (-(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))*~.vnode_.lock().unit_capacities[~][idx(this.grp_caps_[~.vnode_.lock().group])])+elem(this.grp_caps_[~.vnode_.lock().group]))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & !elem(this.grp_caps_[~.vnode_.lock().group]) == std::numeric_limits<double>::max() & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.unode_.lock(), this.n_qty_[~.unode_.lock()]) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.unode_.lock(), (this.n_qty_[~.unode_.lock()]+~.excl_val_)) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.unode_.lock(), (min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+this.n_qty_[~.unode_.lock()])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.unode_.lock(), (min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))+this.n_qty_[~.unode_.lock()])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.unode_.lock(), (min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))+this.n_qty_[~.unode_.lock()])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.unode_.lock(), (min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))+this.n_qty_[~.unode_.lock()])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.vnode_.lock(), this.n_qty_[~.vnode_.lock()]) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.vnode_.lock(), (this.n_qty_[~.vnode_.lock()]+~.excl_val_)) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.vnode_.lock(), (min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+this.n_qty_[~.vnode_.lock()])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.vnode_.lock(), (min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))+this.n_qty_[~.vnode_.lock()])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.vnode_.lock(), (min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))+this.n_qty_[~.vnode_.lock()])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] put this.n_qty_.put(~.vnode_.lock(), (min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))+this.n_qty_[~.vnode_.lock()])) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] call this.graph_.cyclus::ExchangeGraph::AddMatch(~, 0) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] call this.graph_.cyclus::ExchangeGraph::AddMatch(~, ~.excl_val_) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] call this.graph_.cyclus::ExchangeGraph::AddMatch(~, min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] call this.graph_.cyclus::ExchangeGraph::AddMatch(~, min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] call this.graph_.cyclus::ExchangeGraph::AddMatch(~, min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] call this.graph_.cyclus::ExchangeGraph::AddMatch(~, min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] set this.obj_(((0/~.unode_.lock().prefs[~])+~this.obj_)) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & (cyclus::cy_eps+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps+~.vnode_.lock().qty) >= 0 & !cyclus::cy_eps >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] set this.obj_(((~.excl_val_/~.unode_.lock().prefs[~])+~this.obj_)) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group | !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & (cyclus::cy_eps-~.excl_val_+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-~.excl_val_+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & ~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] set this.obj_(((min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))/~.unode_.lock().prefs[~])+~this.obj_)) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] set this.obj_(((min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))/~.unode_.lock().prefs[~])+~this.obj_)) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] set this.obj_(((min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))/~.unode_.lock().prefs[~])+~this.obj_)) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  [for while] [for while] set this.obj_(((min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))/~.unode_.lock().prefs[~])+~this.obj_)) IF !$0.nodes_.end() == ~ & ($0.qty_-~) >= 0 & !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.unode_.lock().qty) >= 0 & (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.unode_.lock().unit_capacities[~]; @vector<double>; ~').end()),std::min_element(fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').begin(),fold(~.vnode_.lock().unit_capacities[~]; @vector<double>; ~').end()))+~.vnode_.lock().qty) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & has(this.graph_.node_arc_map_,~) & !this.graph_.node_arc_map_[~].end() == ~ & !~.exclusive_ & ~.unode_.lock().group & ~.vnode_.lock().group
  set this.unmatched_(($0.qty_-fold(while; 0; !has(this.graph_.node_arc_map_,~):~ ; has(this.graph_.node_arc_map_,~):fold(while; ~; !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & ~.exclusive_ | !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & ~.exclusive_ | !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & ~.exclusive_ | !(boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !(cyclus::cy_eps-~.excl_val_) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & ~.exclusive_:(~+~.excl_val_) ; !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & !~.exclusive_:(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))+~) ; !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & !~.exclusive_:(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))+~) ; !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & !~.exclusive_:(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))+~) ; !(cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & !~.exclusive_:(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))+~) ; (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty)),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & ~.exclusive_ | (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & ~.exclusive_ | (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & ~.exclusive_ | (boost::math::float_distance(min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end())),~.excl_val_)-cyclus::float_ulp_eq) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & ~.exclusive_ | (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty))) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & !~.exclusive_ | (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()))) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & empty(~.vnode_.lock().unit_capacities[~]) & !~.exclusive_ | (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::max_element(@vector<double>.begin(),@vector<double>.end()),std::min_element(@vector<double>.begin(),@vector<double>.end()))) >= 0 & !empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & !~.exclusive_ | (cyclus::cy_eps-min(($0.qty_-~),(-this.n_qty_[~.unode_.lock()]+~.unode_.lock().qty),(-this.n_qty_[~.vnode_.lock()]+~.vnode_.lock().qty),std::min_element(@vector<double>.begin(),@vector<double>.end()))) >= 0 & empty(~.unode_.lock().unit_capacities[~]) & !empty(~.vnode_.lock().unit_capacities[~]) & !~.exclusive_ | (cyclus::cy_eps-~.excl_val_) >= 0 & ~.exclusive_:~))+this.unmatched_)) IF T
  leave !($0.qty_-~) >= 0 | $0.nodes_.end() == ~
  leave this.graph_.node_arc_map_[~].end() == ~
