fn cyclus::toolkit::ResBuf<cyclus::Material>::ResBuf | bool; bool
  default 0 = false
  default 1 = false
  set this.qty_(0) IF T
  set this.is_bulk_($0) IF T
  set this.rs_(list{}) IF T
  set this.rs_present_(set{}) IF T
  throw cyclus::ValueError() IF !(__builtin_inff()+cyclus::cy_eps_rsrc) >= 0 | !__builtin_inff() >= 0 | $0 & $1
  set this.cap_(__builtin_inff()) IF T
  set this.keep_packaging_($1) IF T
fn cyclus::toolkit::ResBuf<cyclus::Material>::capacity | const
  ret return(this.cap_) IF T
fn cyclus::toolkit::ResBuf<cyclus::Material>::capacity | double
  throw cyclus::ValueError() IF !$0 >= 0 | !($0+cyclus::cy_eps_rsrc-this.qty_) >= 0
  set this.cap_($0) IF $0 >= 0 & ($0+cyclus::cy_eps_rsrc-this.qty_) >= 0
fn cyclus::toolkit::ResBuf<cyclus::Material>::keep_packaging | bool
  throw cyclus::ValueError() IF $0 & this.is_bulk_
  set this.keep_packaging_($0) IF !$0 | !this.is_bulk_
fn cyclus::toolkit::ResBuf<cyclus::Material>::keep_packaging | const
  ret return(this.keep_packaging_) IF T
fn cyclus::toolkit::ResBuf<cyclus::Material>::count | const
  ret return(size(this.rs_)) IF T
fn cyclus::toolkit::ResBuf<cyclus::Material>::quantity | const
  ret return(this.qty_) IF T
fn cyclus::toolkit::ResBuf<cyclus::Material>::space | const
  ret return(max((this.cap_-this.qty_),0)) IF T
fn cyclus::toolkit::ResBuf<cyclus::Material>::empty | const
  ret return(empty(this.rs_)) IF T
fn cyclus::toolkit::ResBuf<cyclus::Material>::PopVector | double
  throw cyclus::ValueError() IF ($0-this.qty_) > 0
  [for while] del this.rs_.pop_front() IF !($0-this.qty_) > 0 & !empty(~this.rs_) & ~ > 0
  [for while] call ~this.rs_[0].cyclus::Material::ExtractRes(~) IF !($0-this.qty_) > 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add this.rs_.add(~this.rs_[0]) IF !($0-this.qty_) > 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] del this.rs_present_.erase(~this.rs_[0]) IF !($0-this.qty_) > 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & has(this.rs_present_,~this.rs_[0]) & ~ > 0
  [for while] set this.qty_((-dyn<cyclus::Material>(~this.rs_[0].ExtractRes(~)).qty_+~this.qty_)) IF !($0-this.qty_) > 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] set this.qty_((~this.qty_-~this.rs_[0].qty_)) IF !($0-this.qty_) > 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add @vector<boost::shared_ptr<Material>>.add(dyn<cyclus::Material>(~this.rs_[0].ExtractRes(~))) IF !($0-this.qty_) > 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add @vector<boost::shared_ptr<Material>>.add(~this.rs_[0]) IF !($0-this.qty_) > 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  set this.qty_(0) IF !($0-this.qty_) > 0 & empty(fold(while; this.rs_; ~'))
  set this.qty_(fold(while; this.rs_; ~')[0].qty_) IF !($0-this.qty_) > 0 & !empty(fold(while; this.rs_; ~')) & size(fold(while; this.rs_; ~')) == 1
  ret return(filled(while; @vector<boost::shared_ptr<Material>>)) IF !($0-this.qty_) > 0
  carry fold(while; $0; (~-~this.rs_[0].qty_))
  leave !~ > 0 | empty(~this.rs_)
  seq 1<3
fn cyclus::toolkit::ResBuf<cyclus::Material>::Pop | double
  throw cyclus::ValueError() IF ($0-this.qty_) > 0
  [for while] del this.rs_.pop_front() IF !($0-this.qty_) > 0 & !empty(~this.rs_) & ~ > 0
  [for while] call ~this.rs_[0].cyclus::Material::ExtractRes(~) IF !($0-this.qty_) > 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add this.rs_.add(~this.rs_[0]) IF !($0-this.qty_) > 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] del this.rs_present_.erase(~this.rs_[0]) IF !($0-this.qty_) > 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & has(this.rs_present_,~this.rs_[0]) & ~ > 0
  [for while] set this.qty_((-dyn<cyclus::Material>(~this.rs_[0].ExtractRes(~)).qty_+~this.qty_)) IF !($0-this.qty_) > 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] set this.qty_((~this.qty_-~this.rs_[0].qty_)) IF !($0-this.qty_) > 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add @vector<boost::shared_ptr<Material>>.add(dyn<cyclus::Material>(~this.rs_[0].ExtractRes(~))) IF !($0-this.qty_) > 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add @vector<boost::shared_ptr<Material>>.add(~this.rs_[0]) IF !($0-this.qty_) > 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  set this.qty_(0) IF !($0-this.qty_) > 0 & empty(fold(while; this.rs_; ~'))
  set this.qty_(fold(while; this.rs_; ~')[0].qty_) IF !($0-this.qty_) > 0 & !empty(fold(while; this.rs_; ~')) & size(fold(while; this.rs_; ~')) == 1
  call cyclus::toolkit::Squash(filled(while; @vector<boost::shared_ptr<Material>>)) IF !($0-this.qty_) > 0
  ret return(cyclus::toolkit::Squash(filled(while; @vector<boost::shared_ptr<Material>>))) IF !($0-this.qty_) > 0
  carry fold(while; $0; (~-~this.rs_[0].qty_))
  leave !~ > 0 | empty(~this.rs_)
  seq 1<3
fn cyclus::toolkit::ResBuf<cyclus::Material>::Pop | double; double
  throw cyclus::ValueError() IF ($0-$1-this.qty_) > 0 | ($0-this.qty_) > 0 & !($0-this.qty_) >= 0 | ($0-this.qty_) >= 0 & !size(this.rs_) >= 0
  set this.qty_(fold(times(size(this.rs_)); this.qty_; (~-~this.rs_[0].qty_))) IF !($0-$1-this.qty_) > 0 & ($0-this.qty_) >= 0 & !empty(fold(times(size(this.rs_)); this.rs_; ~')) & !size(fold(times(size(this.rs_)); this.rs_; ~')) == 1 & size(this.rs_) >= 0
  [for times(size(this.rs_))] del this.rs_.pop_front() IF !($0-$1-this.qty_) > 0 & ($0-this.qty_) >= 0 & size(this.rs_) >= 0
  [for times(size(this.rs_))] add @vector<boost::shared_ptr<Material>>.add(~this.rs_[0]) IF !($0-$1-this.qty_) > 0 & ($0-this.qty_) >= 0 & size(this.rs_) >= 0
  [for times(size(this.rs_))] del this.rs_present_.erase(~this.rs_[0]) IF !($0-$1-this.qty_) > 0 & ($0-this.qty_) >= 0 & has(this.rs_present_,~this.rs_[0]) & size(this.rs_) >= 0
  set this.qty_(0) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & empty(fold(while; this.rs_; ~')) | !($0-$1-this.qty_) > 0 & ($0-this.qty_) >= 0 & empty(fold(times(size(this.rs_)); this.rs_; ~')) & size(this.rs_) >= 0
  set this.qty_(fold(times(size(this.rs_)); this.rs_; ~')[0].qty_) IF !($0-$1-this.qty_) > 0 & ($0-this.qty_) >= 0 & !empty(fold(times(size(this.rs_)); this.rs_; ~')) & size(fold(times(size(this.rs_)); this.rs_; ~')) == 1 & size(this.rs_) >= 0
  call cyclus::toolkit::Squash(@vector<boost::shared_ptr<Material>>) IF !($0-$1-this.qty_) > 0 & ($0-this.qty_) >= 0 & size(this.rs_) >= 0
  ret return(cyclus::toolkit::Squash(@vector<boost::shared_ptr<Material>>)) IF !($0-$1-this.qty_) > 0 & ($0-this.qty_) >= 0 & size(this.rs_) >= 0
  [for while] del this.rs_.pop_front() IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] call ~this.rs_[0].cyclus::Material::ExtractRes(~) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add this.rs_.add(~this.rs_[0]) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] del this.rs_present_.erase(~this.rs_[0]) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & has(this.rs_present_,~this.rs_[0]) & ~ > 0
  [for while] set this.qty_((-dyn<cyclus::Material>(~this.rs_[0].ExtractRes(~)).qty_+~this.qty_)) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] set this.qty_((~this.qty_-~this.rs_[0].qty_)) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add @vector<boost::shared_ptr<Material>>.add(dyn<cyclus::Material>(~this.rs_[0].ExtractRes(~))) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & !(~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  [for while] add @vector<boost::shared_ptr<Material>>.add(~this.rs_[0]) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & (~-~this.rs_[0].qty_) >= 0 & !empty(~this.rs_) & ~ > 0
  set this.qty_(fold(while; this.rs_; ~')[0].qty_) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0 & !empty(fold(while; this.rs_; ~')) & size(fold(while; this.rs_; ~')) == 1
  call cyclus::toolkit::Squash(filled(while; @vector<boost::shared_ptr<Material>>)) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0
  ret return(cyclus::toolkit::Squash(filled(while; @vector<boost::shared_ptr<Material>>))) IF !($0-$1-this.qty_) > 0 & !($0-this.qty_) > 0 & !($0-this.qty_) >= 0
  carry fold(while; $0; (~-~this.rs_[0].qty_))
  leave !~ > 0 | empty(~this.rs_)
  seq 9<11
fn cyclus::toolkit::ResBuf<cyclus::Material>::PopN | int
  throw cyclus::ValueError() IF !$0 >= 0 | ($0-size(this.rs_)) >= 1
  set this.qty_(fold(times($0); this.qty_; (~-~this.rs_[0].qty_))) IF $0 >= 0 & !($0-size(this.rs_)) >= 1 & !empty(fold(times($0); this.rs_; ~')) & !size(fold(times($0); this.rs_; ~')) == 1
  [for times($0)] del this.rs_.pop_front() IF $0 >= 0 & !($0-size(this.rs_)) >= 1
  [for times($0)] add @vector<boost::shared_ptr<Material>>.add(~this.rs_[0]) IF $0 >= 0 & !($0-size(this.rs_)) >= 1
  [for times($0)] del this.rs_present_.erase(~this.rs_[0]) IF $0 >= 0 & !($0-size(this.rs_)) >= 1 & has(this.rs_present_,~this.rs_[0])
  set this.qty_(0) IF $0 >= 0 & !($0-size(this.rs_)) >= 1 & empty(fold(times($0); this.rs_; ~'))
  set this.qty_(fold(times($0); this.rs_; ~')[0].qty_) IF $0 >= 0 & !($0-size(this.rs_)) >= 1 & !empty(fold(times($0); this.rs_; ~')) & size(fold(times($0); this.rs_; ~')) == 1
  ret return(@vector<boost::shared_ptr<Material>>) IF $0 >= 0 & !($0-size(this.rs_)) >= 1
fn cyclus::toolkit::ResBuf<cyclus::Material>::PopNRes | int
  throw cyclus::ValueError() IF !$0 >= 0 | ($0-size(this.rs_)) >= 1
  set this.qty_(fold(times($0); this.qty_; (~-~this.rs_[0].qty_))) IF $0 >= 0 & !($0-size(this.rs_)) >= 1 & !empty(fold(times($0); this.rs_; ~')) & !size(fold(times($0); this.rs_; ~')) == 1
  [for times($0)] del this.rs_.pop_front() IF $0 >= 0 & !($0-size(this.rs_)) >= 1
  [for times($0)] add @vector<boost::shared_ptr<Material>>.add(~this.rs_[0]) IF $0 >= 0 & !($0-size(this.rs_)) >= 1
  [for times($0)] del this.rs_present_.erase(~this.rs_[0]) IF $0 >= 0 & !($0-size(this.rs_)) >= 1 & has(this.rs_present_,~this.rs_[0])
  set this.qty_(0) IF $0 >= 0 & !($0-size(this.rs_)) >= 1 & empty(fold(times($0); this.rs_; ~'))
  set this.qty_(fold(times($0); this.rs_; ~')[0].qty_) IF $0 >= 0 & !($0-size(this.rs_)) >= 1 & !empty(fold(times($0); this.rs_; ~')) & size(fold(times($0); this.rs_; ~')) == 1
  call cyclus::toolkit::ResCast(@vector<boost::shared_ptr<Material>>) IF $0 >= 0 & !($0-size(this.rs_)) >= 1
  ret return(cyclus::toolkit::ResCast(@vector<boost::shared_ptr<Material>>)) IF $0 >= 0 & !($0-size(this.rs_)) >= 1
fn cyclus::toolkit::ResBuf<cyclus::Material>::Peek | 
  throw cyclus::ValueError() IF empty(this.rs_)
  ret return(this.rs_[0]) IF !empty(this.rs_)
fn cyclus::toolkit::ResBuf<cyclus::Material>::Pop | 
  throw cyclus::ValueError() IF empty(this.rs_)
  del this.rs_.pop_front() IF !empty(this.rs_)
  del this.rs_present_.erase(this.rs_[0]) IF !empty(this.rs_) & has(this.rs_present_,this.rs_[0])
  set this.qty_((this.qty_-this.rs_[0].qty_)) IF !empty(this.rs_') & !empty(this.rs_) & !size(this.rs_') == 1
  set this.qty_(0) IF empty(this.rs_') & !empty(this.rs_)
  set this.qty_(this.rs_'[0].qty_) IF !empty(this.rs_') & !empty(this.rs_) & size(this.rs_') == 1
  ret return(this.rs_[0]) IF !empty(this.rs_)
fn cyclus::toolkit::ResBuf<cyclus::Material>::PopBack | 
  throw cyclus::ValueError() IF empty(this.rs_)
  del this.rs_.pop_back() IF !empty(this.rs_)
  del this.rs_present_.erase(this.rs_.back()) IF !empty(this.rs_) & has(this.rs_present_,this.rs_.back())
  set this.qty_((this.qty_-this.rs_.back().qty_)) IF !empty(this.rs_') & !empty(this.rs_) & !size(this.rs_') == 1
  set this.qty_(0) IF empty(this.rs_') & !empty(this.rs_)
  set this.qty_(this.rs_'[0].qty_) IF !empty(this.rs_') & !empty(this.rs_) & size(this.rs_') == 1
  ret return(this.rs_.back()) IF !empty(this.rs_)
fn cyclus::toolkit::ResBuf<cyclus::Material>::Push | boost::shared_ptr<cyclus::Resource>
  throw cyclus::CastError() IF !dyn<cyclus::Material>($0)
  throw cyclus::ValueError() IF ($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0)
  throw cyclus::KeyError() IF !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & has(this.rs_present_,dyn<cyclus::Material>($0))
  call this.rs_[0].cyclus::Material::Absorb(dyn<cyclus::Material>($0)) IF !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & this.is_bulk_
  call dyn<cyclus::Material>($0).cyclus::Material::ChangePackage() IF !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & !this.is_bulk_ & !this.keep_packaging_ | !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & !this.keep_packaging_
  add this.rs_.add(dyn<cyclus::Material>($0)) IF !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & !this.is_bulk_ | !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0))
  add this.rs_present_.add(dyn<cyclus::Material>($0)) IF !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & !this.is_bulk_ | !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0))
  set this.qty_(($0.quantity()+this.qty_)) IF !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !empty(this.rs_') & !has(this.rs_present_,dyn<cyclus::Material>($0)) & !size(this.rs_') == 1 & !this.is_bulk_ | !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !empty(this.rs_') & empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & !size(this.rs_') == 1 | !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & !size(this.rs_) == 1 & this.is_bulk_
  set this.qty_(0) IF !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & empty(this.rs_') & !has(this.rs_present_,dyn<cyclus::Material>($0)) & !this.is_bulk_ | !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & empty(this.rs_') & empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0))
  set this.qty_(this.rs_[0].qty_') IF !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !empty(this.rs_') & !has(this.rs_present_,dyn<cyclus::Material>($0)) & size(this.rs_') == 1 & !this.is_bulk_ | !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !empty(this.rs_') & empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & size(this.rs_') == 1 | !($0.quantity()-cyclus::cy_eps_rsrc-max((this.cap_-this.qty_),0)) > 0 & dyn<cyclus::Material>($0) & !empty(this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>($0)) & size(this.rs_) == 1 & this.is_bulk_
fn cyclus::toolkit::ResBuf<cyclus::Material>::Push<boost::shared_ptr<cyclus::Resource>> | std::vector<boost::shared_ptr<cyclus::Resource>>
  [for $0] throw cyclus::CastError() IF !dyn<cyclus::Material>(elem($0))
  throw cyclus::ValueError() IF !(cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0
  [for $0] throw cyclus::KeyError() IF (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0 & has(this.rs_present_,dyn<cyclus::Material>(elem($0)))
  [for $0] call ~this.rs_[0].cyclus::Material::Absorb(dyn<cyclus::Material>(elem($0))) IF (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0 & !empty(~this.rs_) & this.is_bulk_
  [for $0] call dyn<cyclus::Material>(elem($0)).cyclus::Material::ChangePackage() IF (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0 & !this.is_bulk_ & !this.keep_packaging_ | (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0 & empty(~this.rs_) & !this.keep_packaging_
  [for $0] add this.rs_.add(dyn<cyclus::Material>(elem($0))) IF (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0 & !this.is_bulk_ | (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0 & empty(~this.rs_)
  [for $0] add this.rs_present_.add(dyn<cyclus::Material>(elem($0))) IF (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0 & !has(this.rs_present_,dyn<cyclus::Material>(elem($0))) & !this.is_bulk_ | (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0 & empty(~this.rs_) & !has(this.rs_present_,dyn<cyclus::Material>(elem($0)))
  set this.qty_((fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+this.qty_)) IF (cyclus::cy_eps_rsrc-fold($0; 0; (dyn<cyclus::Material>(elem($0)).qty_+~))+max((this.cap_-this.qty_),0)) >= 0
fn cyclus::toolkit::ResBuf<cyclus::Material>::Decay | int
  default 0 = -1
  [for this.rs_] call elem(this.rs_).cyclus::Material::Decay($0) IF T
fn cyclus::toolkit::ResBuf<cyclus::Material>::UpdateQty | 
  set this.qty_(0) IF empty(this.rs_)
  set this.qty_(this.rs_[0].qty_) IF !empty(this.rs_) & size(this.rs_) == 1
fn cyclus::toolkit::Squash | std::vector<boost::shared_ptr<cyclus::Product>>
  throw cyclus::Error() IF empty($0)
  [for range((size($0)-1))] call $0[0].cyclus::Product::Absorb($0[(idx(range((size($0)-1)))+1)]) IF !empty($0)
  call $0[0].cyclus::Product::ChangePackage() IF !empty($0)
  ret return($0[0]) IF !empty($0)
  seq 1<2
fn cyclus::toolkit::Squash | std::vector<boost::shared_ptr<cyclus::Material>>
  throw cyclus::Error() IF empty($0)
  [for range((size($0)-1))] call $0[0].cyclus::Material::Absorb($0[(idx(range((size($0)-1)))+1)]) IF !empty($0)
  call $0[0].cyclus::Material::ChangePackage() IF !empty($0)
  ret return($0[0]) IF !empty($0)
  seq 1<2
fn cyclus::toolkit::Squash | std::vector<boost::shared_ptr<cyclus::Resource>>
  throw cyclus::Error() IF !cyclus::ResCast($0)[0] | empty($0) | empty(cyclus::ResCast($0))
  * call cyclus::ResCast($0) IF !empty($0)
  [for range((size(cyclus::ResCast($0))-1))] call cyclus::ResCast($0)[0].cyclus::Material::Absorb(cyclus::ResCast($0)[(idx(range((size(cyclus::ResCast($0))-1)))+1)]) IF cyclus::ResCast($0)[0] & !empty($0) & !empty(cyclus::ResCast($0))
  call cyclus::ResCast($0)[0].cyclus::Material::ChangePackage() IF cyclus::ResCast($0)[0] & !empty($0) & !empty(cyclus::ResCast($0))
  ret return(cyclus::ResCast($0)[0]) IF cyclus::ResCast($0)[0] & !empty($0) & !empty(cyclus::ResCast($0))
  seq 2<3
fn cyclus::toolkit::ResCast | std::vector<boost::shared_ptr<cyclus::Material>>
  ret return(map($0; dyn<cyclus::Resource>(elem($0)))) IF T
fn cyclus::toolkit::ResCast | std::vector<boost::shared_ptr<cyclus::Product>>
  ret return(map($0; dyn<cyclus::Resource>(elem($0)))) IF T
fn cyclus::toolkit::ResCast | std::vector<boost::shared_ptr<cyclus::Resource>>
  ret return($0) IF T
