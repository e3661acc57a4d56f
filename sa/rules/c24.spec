fn cyclus::toolkit::ResMap<int, cyclus::Material>::ResMap | 
  set this.dirty_quantity_(true) IF T
  set this.quantity_(0) IF T
  set this.resources_(map{}) IF T
  set this.obj_ids_(map{}) IF T
  call cyclus::Warn("ResMap is experimental and its API may be subject to change", of(cyclus::EXPERIMENTAL_WARNING)) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::~ResMap | 
fn cyclus::toolkit::ResMap<int, cyclus::Material>::size | const
  ret return(size(this.resources_)) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::quantity | 
  set this.quantity_(0) IF empty(this.resources_) & this.dirty_quantity_
  call cyclus::CycArithmetic::KahanSum(map(this.resources_; elem(this.resources_).second.qty_)) IF !empty(this.resources_) & this.dirty_quantity_
  set this.quantity_(cyclus::CycArithmetic::KahanSum(map(this.resources_; elem(this.resources_).second.qty_))) IF !empty(this.resources_) & this.dirty_quantity_
  set this.dirty_quantity_(false) IF this.dirty_quantity_
  ret return(0) IF empty(this.resources_) & this.dirty_quantity_
  ret return(cyclus::CycArithmetic::KahanSum(map(this.resources_; elem(this.resources_).second.qty_))) IF !empty(this.resources_) & this.dirty_quantity_
  ret return(this.quantity_) IF !this.dirty_quantity_
fn cyclus::toolkit::ResMap<int, cyclus::Material>::obj_ids | 
  del this.obj_ids_.clear() IF T
  [for this.resources_] put this.obj_ids_.put(elem(this.resources_).first, elem(this.resources_).second.obj_id_) IF T
  ret return(cleared(this.obj_ids_)) IF T
  seq 0<1
fn cyclus::toolkit::ResMap<int, cyclus::Material>::obj_ids | std::map<int, int>
  set this.obj_ids_($0) IF T
  set this.dirty_quantity_(true) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::empty | const
  ret return(empty(this.resources_)) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::operator[] | const int &
  set this.dirty_quantity_(true) IF T
  ret return(this.resources_[$0]) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::operator[] | const int & const
  set this.dirty_quantity_(true) IF T
  ret return(this.resources_[$0]) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::begin | 
  set this.dirty_quantity_(true) IF T
  ret return(this.resources_.begin()) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::begin | const
  ret return(this.resources_.begin()) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::cbegin | const
  ret return(this.resources_.begin()) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::end | 
  set this.dirty_quantity_(true) IF T
  ret return(this.resources_.end()) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::end | const
  ret return(this.resources_.end()) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::cend | const
  ret return(this.resources_.end()) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::erase | std::_Rb_tree_iterator<std::pair<const int, boost::shared_ptr<cyclus::Material>>>
  del this.resources_.erase($0) IF T
  set this.quantity_(0) IF empty(this.resources_')
  call cyclus::CycArithmetic::KahanSum(map(this.resources_'; elem(this.resources_').second.qty_)) IF !empty(this.resources_')
  set this.quantity_(cyclus::CycArithmetic::KahanSum(map(this.resources_'; elem(this.resources_').second.qty_))) IF !empty(this.resources_')
  set this.dirty_quantity_(false) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::erase | const int &
  del this.resources_.erase($0) IF has(this.resources_,$0)
  set this.quantity_(0) IF empty(this.resources_')
  call cyclus::CycArithmetic::KahanSum(map(this.resources_'; elem(this.resources_').second.qty_)) IF !empty(this.resources_')
  set this.quantity_(cyclus::CycArithmetic::KahanSum(map(this.resources_'; elem(this.resources_').second.qty_))) IF !empty(this.resources_')
  set this.dirty_quantity_(false) IF T
  ret return(has(this.resources_,$0)) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::erase | std::_Rb_tree_iterator<std::pair<const int, boost::shared_ptr<cyclus::Material>>>; std::_Rb_tree_iterator<std::pair<const int, boost::shared_ptr<cyclus::Material>>>
  del this.resources_.erase($0, $1) IF T
  set this.quantity_(0) IF empty(this.resources_')
  call cyclus::CycArithmetic::KahanSum(map(this.resources_'; elem(this.resources_').second.qty_)) IF !empty(this.resources_')
  set this.quantity_(cyclus::CycArithmetic::KahanSum(map(this.resources_'; elem(this.resources_').second.qty_))) IF !empty(this.resources_')
  set this.dirty_quantity_(false) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::clear | 
  del this.resources_.clear() IF T
  del this.obj_ids_.clear() IF T
  set this.dirty_quantity_(true) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::Values | 
  ret return(map(this.resources_; elem(this.resources_).second)) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::ResValues | 
  call cyclus::toolkit::ResCast(map(this.resources_; elem(this.resources_).second)) IF T
  ret return(cyclus::toolkit::ResCast(map(this.resources_; elem(this.resources_).second))) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::Values | std::vector<boost::shared_ptr<cyclus::Material>>
  [for this.obj_ids_] put @map<int, int>.put(elem(this.obj_ids_).second, elem(this.obj_ids_).first) IF T
  [for $0] put this.resources_.put(@map<int, int>[elem($0).obj_id_], elem($0)) IF T
  set this.dirty_quantity_(true) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::ResValues | std::vector<boost::shared_ptr<cyclus::Resource>>
  call cyclus::ResCast($0) IF T
  [for this.obj_ids_] put @map<int, int>.put(elem(this.obj_ids_).second, elem(this.obj_ids_).first) IF T
  [for cyclus::ResCast($0)] put this.resources_.put(@map<int, int>[elem(cyclus::ResCast($0)).obj_id_], elem(cyclus::ResCast($0))) IF T
  set this.dirty_quantity_(true) IF T
fn cyclus::toolkit::ResMap<int, cyclus::Material>::Pop | const int
  throw cyclus::KeyError() IF !has(this.resources_,$0)
  del this.resources_.erase($0) IF has(this.resources_,$0)
  set this.dirty_quantity_(true) IF has(this.resources_,$0)
  ret return(this.resources_[$0]) IF has(this.resources_,$0)
fn cyclus::toolkit::ResMap<int, cyclus::Material>::UpdateQuantity | 
  set this.quantity_(0) IF empty(this.resources_)
  call cyclus::CycArithmetic::KahanSum(map(this.resources_; elem(this.resources_).second.qty_)) IF !empty(this.resources_)
  set this.quantity_(cyclus::CycArithmetic::KahanSum(map(this.resources_; elem(this.resources_).second.qty_))) IF !empty(this.resources_)
  set this.dirty_quantity_(false) IF T
