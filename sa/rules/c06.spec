fn cyclus::Material::~Material
fn cyclus::Material::Create
  default 3 = cyclus::Package::unpackaged_name_
  call new Material{$0.ctx_,$1,$2,$3}.tracker_.cyclus::ResTracker::Create($0) IF T
  ret return(new Material{$0.ctx_,$1,$2,$3}) IF T
fn cyclus::Material::CreateUntracked
  ret return(new Material{NULL,$0,$1,cyclus::Package::unpackaged_name_}) IF T
fn cyclus::Material::qual_id
  ret return(this.comp_.id_) IF T
fn cyclus::Material::type
  ret return(cyclus::Material::kType) IF T
fn cyclus::Material::Clone
  call new this.tracker_.cyclus::ResTracker::DontTrack() IF T
  ret return(new this) IF T
fn cyclus::Material::Record
  call this.ctx_.rec_.NewDatum("MaterialInfo").cyclus::Datum::AddVal("ResourceId", this.state_id_) IF T
  call this.ctx_.rec_.NewDatum("MaterialInfo").cyclus::Datum::AddVal("PrevDecayTime", this.prev_decay_time_) IF T
  call this.ctx_.rec_.NewDatum("MaterialInfo").cyclus::Datum::Record() IF T
  call this.comp_.cyclus::Composition::Record($0) IF T
fn cyclus::Material::units
  ret return("kg") IF T
fn cyclus::Material::quantity
  ret return(this.qty_) IF T
fn cyclus::Material::ExtractRes
  throw cyclus::ValueError() IF ($0-this.qty_) > 0
  set this.qty_((-$0+this.qty_)) IF !($0-this.qty_) > 0
  set new Material{this.ctx_,$0,this.comp_,cyclus::Package::unpackaged_name_}.prev_decay_time_(this.prev_decay_time_) IF !($0-this.qty_) > 0
  call this.tracker_.cyclus::ResTracker::Extract(new Material{this.ctx_,$0,this.comp_,cyclus::Package::unpackaged_name_}.tracker_) IF !($0-this.qty_) > 0
  ret return(new Material{this.ctx_,$0,this.comp_,cyclus::Package::unpackaged_name_}) IF !($0-this.qty_) > 0
fn cyclus::Material::ExtractQty
  throw cyclus::ValueError() IF ($0-this.qty_) > 0
  set this.qty_((-$0+this.qty_)) IF !($0-this.qty_) > 0
  set new Material{this.ctx_,$0,this.comp_,cyclus::Package::unpackaged_name_}.prev_decay_time_(this.prev_decay_time_) IF !($0-this.qty_) > 0
  call this.tracker_.cyclus::ResTracker::Extract(new Material{this.ctx_,$0,this.comp_,cyclus::Package::unpackaged_name_}.tracker_) IF !($0-this.qty_) > 0
  ret return(new Material{this.ctx_,$0,this.comp_,cyclus::Package::unpackaged_name_}) IF !($0-this.qty_) > 0
fn cyclus::Material::ExtractComp
  default 2 = cyclus::cy_eps_rsrc
  throw cyclus::ValueError() IF ($0-this.qty_) > 0
  call cyclus::compmath::Normalize(this.comp_.mass(), this.qty_) IF !$1 == this.comp_ & !($0-this.qty_) > 0
  call cyclus::compmath::Normalize($1.mass(), $0) IF !$1 == this.comp_ & !($0-this.qty_) > 0
  call cyclus::compmath::ApplyThreshold(@map<int, double>{cyclus::compmath::Sub(this.comp_.mass(),$1.mass())}, $2) IF !$1 == this.comp_ & !($0-this.qty_) > 0
  call cyclus::Composition::CreateFromMass(@map<int, double>{cyclus::compmath::Sub(this.comp_.mass(),$1.mass())}') IF !$1 == this.comp_ & !($0-this.qty_) > 0
  set this.comp_(cyclus::Composition::CreateFromMass(@map<int, double>{cyclus::compmath::Sub(this.comp_.mass(),$1.mass())}')) IF !$1 == this.comp_ & !($0-this.qty_) > 0
  set this.qty_((-$0+this.qty_)) IF !($0-this.qty_) > 0
  set new Material{this.ctx_,$0,$1,cyclus::Package::unpackaged_name_}.prev_decay_time_(this.prev_decay_time_) IF !($0-this.qty_) > 0
  call this.tracker_.cyclus::ResTracker::Extract(new Material{this.ctx_,$0,$1,cyclus::Package::unpackaged_name_}.tracker_) IF !($0-this.qty_) > 0
  ret return(new Material{this.ctx_,$0,$1,cyclus::Package::unpackaged_name_}) IF !($0-this.qty_) > 0
fn cyclus::Material::Absorb
  call this.cyclus::Material::Decay(-1) IF this.ctx_ & this.ctx_.si_.decay == "lazy"
  call $0.cyclus::Material::Decay(-1) IF $0.ctx_ & $0.ctx_.si_.decay == "lazy"
  call cyclus::compmath::Normalize(this.comp_'.mass(), this.qty_) IF !$0.comp_' == this.comp_'
  call cyclus::compmath::Normalize($0.comp_'.mass(), $0.qty_) IF !$0.comp_' == this.comp_'
  call cyclus::Composition::CreateFromMass(cyclus::compmath::Add(this.comp_'.mass(),$0.comp_'.mass())) IF !$0.comp_' == this.comp_'
  set this.comp_(cyclus::Composition::CreateFromMass(cyclus::compmath::Add(this.comp_'.mass(),$0.comp_'.mass()))) IF !$0.comp_' == this.comp_'
  set this.prev_decay_time_($0.prev_decay_time_') IF ($0.qty_-this.qty_) > 0
  set this.qty_(($0.qty_+this.qty_)) IF T
  set $0.qty_(0) IF T
  call this.tracker_.cyclus::ResTracker::Absorb($0.tracker_) IF T
  seq 0<5 0<6 0<9 1<9
fn cyclus::Material::Transmute
  set this.comp_($0) IF T
  set this.prev_decay_time_(this.ctx_.ti_.time_) IF (this.ctx_.ti_.time_-this.prev_decay_time_) >= 1 & this.ctx_
  call this.tracker_.cyclus::ResTracker::Modify() IF T
fn cyclus::Material::DecayHeat
  call Material{this.comp_.mass(),(1000*this.qty_)}.pyne::Material::decay_heat() IF T
  ret return(fold(Material{this.comp_.mass(),(1000*this.qty_)}.decay_heat(); 0; !std::isnan(elem(Material{this.comp_.mass(),(1000*this.qty_)}.decay_heat()).second):(elem(Material{this.comp_.mass(),(1000*this.qty_)}.decay_heat()).second+~) ; std::isnan(elem(Material{this.comp_.mass(),(1000*this.qty_)}.decay_heat()).second):~)) IF T
fn cyclus::Material::comp | const
  throw cyclus::Error() IF T
fn cyclus::Material::comp | 
  call this.cyclus::Material::Decay(-1) IF this.ctx_ & this.ctx_.si_.decay == "lazy"
  ret return(this.comp_') IF T
fn cyclus::Material::Material
  default 3 = cyclus::Package::unpackaged_name_
  set cyclus::Resource::nextstate_id_((cyclus::Resource::nextstate_id_+1)) IF T
  set this.state_id_(cyclus::Resource::nextstate_id_) IF T
  set cyclus::Resource::nextobj_id_((cyclus::Resource::nextobj_id_+1)) IF T
  set this.obj_id_(cyclus::Resource::nextobj_id_) IF T
  set this.ctx_($0) IF T
  set this.qty_($1) IF T
  set this.comp_($2) IF T
  set this.prev_decay_time_(0) IF !$0
  set this.tracker_(ResTracker{$0,this}) IF T
  set this.package_name_($3) IF T
  set this.prev_decay_time_($0.ti_.time_) IF $0
  call ResTracker{$0,this}.cyclus::ResTracker::DontTrack() IF !$0
fn cyclus::Material::prev_decay_time
  ret return(this.prev_decay_time_) IF T
fn cyclus::NewBlankMaterial
  call cyclus::Composition::CreateFromMass(map{}) IF T
  ret return(cyclus::Material::CreateUntracked($0,cyclus::Composition::CreateFromMass(map{}))) IF T
fn cyclus::Resource::BumpStateId
  set this.state_id_(cyclus::Resource::nextstate_id_) IF T
  set cyclus::Resource::nextstate_id_((cyclus::Resource::nextstate_id_+1)) IF T
fn cyclus::Resource::Resource
  set cyclus::Resource::nextstate_id_((cyclus::Resource::nextstate_id_+1)) IF T
  set this.state_id_(cyclus::Resource::nextstate_id_) IF T
  set cyclus::Resource::nextobj_id_((cyclus::Resource::nextobj_id_+1)) IF T
  set this.obj_id_(cyclus::Resource::nextobj_id_) IF T
fn cyclus::Resource::obj_id
  ret return(this.obj_id_) IF T
fn cyclus::Resource::state_id | const
  ret return(this.state_id_) IF T
fn cyclus::Resource::Absorb
  throw cyclus::Error() IF T
fn cyclus::Resource::state_id | int
  set this.state_id_($0) IF T
fn cyclus::ResCast<cyclus::Material> | std::vector<boost::shared_ptr<cyclus::Resource>>
  ret return(map($0; dyn<cyclus::Material>(elem($0)))) IF T
fn cyclus::ResCast<cyclus::Material> | boost::shared_ptr<cyclus::Resource>
  ret return(dyn<cyclus::Material>($0)) IF T
