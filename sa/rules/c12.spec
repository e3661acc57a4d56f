fn cyclus::Composition::Decay | int; unsigned long
  ret return(this.decay_line_[($0+this.prev_decay_)]) IF has(this.decay_line_,($0+this.prev_decay_))
  [for this.mass_] put this.atom_.put(elem(this.mass_).first, (elem(this.mass_).second/pyne::atomic_mass(elem(this.mass_).first))) IF empty(this.atom_) & !has(this.decay_line_,($0+this.prev_decay_))
  [for while] put @map<int, double>.put(pyne_cram_transmute_info.nucids[~], vector{pyne_cram_transmute_info.n}[~]) IF (pyne_cram_transmute_info.n-~) >= 1 & !empty(this.atom_) & !has(this.decay_line_,($0+this.prev_decay_)) & vector{pyne_cram_transmute_info.n}[~] > 0
  set new Composition{($0+this.prev_decay_),this.decay_line_}.atom_(fold(while; @map<int, double>; !vector{pyne_cram_transmute_info.n}[~] > 0:~ ; vector{pyne_cram_transmute_info.n}[~] > 0:~')) IF !empty(this.atom_) & !has(this.decay_line_,($0+this.prev_decay_))
  put this.decay_line_.put(($0+this.prev_decay_), new Composition{($0+this.prev_decay_),this.decay_line_}) IF !has(this.decay_line_,($0+this.prev_decay_))
  ret return(new Composition{($0+this.prev_decay_),this.decay_line_}) IF !has(this.decay_line_,($0+this.prev_decay_))
  leave !(pyne_cram_transmute_info.n-~) >= 1
  leave !(pyne_cram_transmute_info.nnz-~) >= 1
fn cyclus::Composition::Decay | int
  [for this.mass_] put this.atom_.put(elem(this.mass_).first, (elem(this.mass_).second/pyne::atomic_mass(elem(this.mass_).first))) IF empty(this.atom_) & !has(this.decay_line_,($0+this.prev_decay_))
  [for while] put @map<int, double>.put(pyne_cram_transmute_info.nucids[~], vector{pyne_cram_transmute_info.n}[~]) IF (pyne_cram_transmute_info.n-~) >= 1 & !empty(this.atom_) & !has(this.decay_line_,($0+this.prev_decay_)) & vector{pyne_cram_transmute_info.n}[~] > 0
  set new Composition{($0+this.prev_decay_),this.decay_line_}.atom_(fold(while; @map<int, double>; !vector{pyne_cram_transmute_info.n}[~] > 0:~ ; vector{pyne_cram_transmute_info.n}[~] > 0:~')) IF !empty(this.atom_) & !has(this.decay_line_,($0+this.prev_decay_))
  put this.decay_line_.put(($0+this.prev_decay_), new Composition{($0+this.prev_decay_),this.decay_line_}) IF !has(this.decay_line_,($0+this.prev_decay_))
  ret return(this.decay_line_[($0+this.prev_decay_)]) IF has(this.decay_line_,($0+this.prev_decay_))
  ret return(new Composition{($0+this.prev_decay_),this.decay_line_}) IF !has(this.decay_line_,($0+this.prev_decay_))
  leave !(pyne_cram_transmute_info.n-~) >= 1
  leave !(pyne_cram_transmute_info.nnz-~) >= 1
fn cyclus::Composition::NewDecay
  [for this.mass_] put this.atom_.put(elem(this.mass_).first, (elem(this.mass_).second/pyne::atomic_mass(elem(this.mass_).first))) IF empty(this.atom_)
  ret return(new Composition{($0+this.prev_decay_),this.decay_line_}) IF T
  [for while] put @map<int, double>.put(pyne_cram_transmute_info.nucids[~], vector{pyne_cram_transmute_info.n}[~]) IF (pyne_cram_transmute_info.n-~) >= 1 & !empty(this.atom_) & vector{pyne_cram_transmute_info.n}[~] > 0
  set new Composition{($0+this.prev_decay_),this.decay_line_}.atom_(fold(while; @map<int, double>; !vector{pyne_cram_transmute_info.n}[~] > 0:~ ; vector{pyne_cram_transmute_info.n}[~] > 0:~')) IF !empty(this.atom_)
  leave !(pyne_cram_transmute_info.n-~) >= 1
  leave !(pyne_cram_transmute_info.nnz-~) >= 1
fn cyclus::Material::Decay
  stop: Composition::Decay|compmath
  default 0 = -1
  throw cyclus::ValueError() IF !$0 >= 0 & !this.ctx_
  set this.prev_decay_time_(this.ctx_.ti_.time_) IF !$0 >= 0 & !(this.ctx_.ti_.time_-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp(((-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt))*(this.ctx_.ti_.time_-this.prev_decay_time_))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | !$0 >= 0 & !(this.ctx_.ti_.time_-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & this.ctx_ & !this.ctx_.si_.decay == "never" | $0 >= 0 & !($0-this.ctx_.ti_.time_) >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt)))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | $0 >= 0 & !($0-this.ctx_.ti_.time_) >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & this.ctx_ & !this.ctx_.si_.decay == "never"
  set this.prev_decay_time_($0) IF $0 >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(kDefaultTimeStepDur*pyne::decay_const(elem(this.comp_.atom()).first))))) > 0.999) & !this.ctx_ | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt)))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & !this.ctx_ | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & !this.ctx_.si_.decay == "never"
  call this.comp_.cyclus::Composition::Decay((this.ctx_.ti_.time_-this.prev_decay_time_), this.ctx_.si_.dt) IF !$0 >= 0 & !(this.ctx_.ti_.time_-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp(((-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt))*(this.ctx_.ti_.time_-this.prev_decay_time_))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | !$0 >= 0 & !(this.ctx_.ti_.time_-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & this.ctx_ & !this.ctx_.si_.decay == "never"
  call this.comp_.cyclus::Composition::Decay(($0-this.prev_decay_time_), this.ctx_.si_.dt) IF $0 >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt)))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & this.ctx_ & !this.ctx_.si_.decay == "never"
  call this.comp_.cyclus::Composition::Decay(($0-this.prev_decay_time_), kDefaultTimeStepDur) IF $0 >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(kDefaultTimeStepDur*pyne::decay_const(elem(this.comp_.atom()).first))))) > 0.999) & !this.ctx_ | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & !this.ctx_
  set this.comp_(this.comp_.Decay((this.ctx_.ti_.time_-this.prev_decay_time_),this.ctx_.si_.dt)) IF !$0 >= 0 & !(this.ctx_.ti_.time_-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp(((-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt))*(this.ctx_.ti_.time_-this.prev_decay_time_))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | !$0 >= 0 & !(this.ctx_.ti_.time_-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & this.ctx_ & !this.ctx_.si_.decay == "never"
  set this.comp_(this.comp_.Decay(($0-this.prev_decay_time_),this.ctx_.si_.dt)) IF $0 >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt)))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & this.ctx_ & !this.ctx_.si_.decay == "never"
  set this.comp_(this.comp_.Decay(($0-this.prev_decay_time_),kDefaultTimeStepDur)) IF $0 >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(kDefaultTimeStepDur*pyne::decay_const(elem(this.comp_.atom()).first))))) > 0.999) & !this.ctx_ | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & !this.ctx_
  call this.tracker_.cyclus::ResTracker::Modify() IF !$0 >= 0 & !(this.ctx_.ti_.time_-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp(((-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt))*(this.ctx_.ti_.time_-this.prev_decay_time_))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | !$0 >= 0 & !(this.ctx_.ti_.time_-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & this.ctx_ & !this.ctx_.si_.decay == "never" | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(kDefaultTimeStepDur*pyne::decay_const(elem(this.comp_.atom()).first))))) > 0.999) & !this.ctx_ | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & ANY(this.comp_.atom(): !exp((($0-this.prev_decay_time_)*(-(pyne::decay_const(elem(this.comp_.atom()).first)*this.ctx_.si_.dt)))) > 0.999) & this.ctx_ & !this.ctx_.si_.decay == "never" | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & !this.ctx_ | $0 >= 0 & !($0-this.prev_decay_time_) == 0 & size(this.comp_.atom()) >= 101 & !this.ctx_.si_.decay == "never"
fn cyclus::Material::ExtractComp
  stop: compmath|Composition
  default 2 = cyclus::cy_eps_rsrc
  throw cyclus::ValueError() IF ($0-this.qty_) > 0
  call cyclus::compmath::Normalize(this.comp_.mass(), this.qty_) IF !$1 == this.comp_ & !($0-this.qty_) > 0
  call cyclus::compmath::Normalize($1.mass(), $0) IF !$1 == this.comp_ & !($0-this.qty_) > 0
  call cyclus::compmath::ApplyThreshold(@map<int, double>{cyclus::compmath::Sub(this.comp_.mass(),$1.mass())}, $2) IF !$1 == this.comp_ & !($0-this.qty_) > 0
  call cyclus::Composition::CreateFromMass(@map<int, double>{cyclus::compmath::Sub(this.comp_.mass(),$1.mass())}') IF !$1 == this.comp_ & !($0-this.qty_) > 0
  set this.comp_(cyclus::Composition::CreateFromMass(@map<int, double>{cyclus::compmath::Sub(this.comp_.mass(),$1.mass())}')) IF !$1 == this.comp_ & !($0-this.qty_) > 0
  set this.qty_((-$0+this.qty_)) IF !($0-this.qty_) > 0
  set new Material{this.ctx_,$0,$1,cyclus::Package::unpackaged_name_}.prev_decay_time_(this.prev_decay_time_) IF !($0-this.qty_) > 0
  call this.tracker_.cyclus::ResTracker::Extract(new Material{this.ctx_,$0,$1,cyclus::Package::unpackaged_name_}.tracker_) IF !($0-this.qty_) > 0
  ret return(new Material{this.ctx_,$0,$1,cyclus::Package::unpackaged_name_}) IF !($0-this.qty_) > 0
fn cyclus::Material::Absorb
  stop: compmath|Composition
  call this.cyclus::Material::Decay(-1) IF this.ctx_ & this.ctx_.si_.decay == "lazy"
  call $0.cyclus::Material::Decay(-1) IF $0.ctx_ & $0.ctx_.si_.decay == "lazy"
  call cyclus::compmath::Normalize(this.comp_'.mass(), this.qty_) IF !$0.comp_' == this.comp_'
  call cyclus::compmath::Normalize($0.comp_'.mass(), $0.qty_) IF !$0.comp_' == this.comp_'
  call cyclus::Composition::CreateFromMass(cyclus::compmath::Add(this.comp_'.mass(),$0.comp_'.mass())) IF !$0.comp_' == this.comp_'
  set this.comp_(cyclus::Composition::CreateFromMass(cyclus::compmath::Add(this.comp_'.mass(),$0.comp_'.mass()))) IF !$0.comp_' == this.comp_'
  set this.prev_decay_time_($0.prev_decay_time_') IF ($0.qty_-this.qty_) > 0
  set this.qty_(($0.qty_+this.qty_)) IF T
  set $0.qty_(0) IF T
  call this.tracker_.cyclus::ResTracker::Absorb($0.tracker_) IF T
  seq 0<5 0<6 0<9 1<9
fn cyclus::Material::Transmute
  stop: compmath|Composition
  set this.comp_($0) IF T
  set this.prev_decay_time_(this.ctx_.ti_.time_) IF (this.ctx_.ti_.time_-this.prev_decay_time_) >= 1 & this.ctx_
  call this.tracker_.cyclus::ResTracker::Modify() IF T
fn cyclus::Decayer::Decayer
  set this.pre_vect_(LMatrix{}) IF T
  set this.post_vect_(LMatrix{}) IF T
  call cyclus::Warn("Decayer is deprecated in favor of pyne::decayers::decay", of(cyclus::DEPRECATION_WARNING)) IF T
  [for $0] put cyclus::Decayer::parent_.put(elem($0).first, pair((size(cyclus::Decayer::parent_)+1),pyne::decay_const(elem($0).first))) IF !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)
  [for $0] add cyclus::Decayer::nuclides_tracked_.add(elem($0).first) IF !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)
  [for $0] call pyne::decay_children(elem($0).first) IF !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)
  [for $0] [for pyne::decay_children(elem($0).first)] call cyclus::Decayer::AddNucToMaps(elem(pyne::decay_children(elem($0).first))) IF !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)
  [for $0] [for pyne::decay_children(elem($0).first)] call pyne::branch_ratio(elem($0).first, elem(pyne::decay_children(elem($0).first))) IF !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)
  [for $0] [for pyne::decay_children(elem($0).first)] put @vector<pair<int, double>>.put(idx(pyne::decay_children(elem($0).first)), pair(elem(pyne::decay_children(elem($0).first)),pyne::branch_ratio(elem($0).first,elem(pyne::decay_children(elem($0).first))))) IF !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)
  [for $0] put cyclus::Decayer::daughters_.put((size(cyclus::Decayer::parent_)+1), fold(pyne::decay_children(elem($0).first); @vector<pair<int, double>>{size(pyne::decay_children(elem($0).first))}; ~')) IF !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)
  set cyclus::Decayer::decay_matrix_(LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}) IF ANY($0: !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first))
  [for cyclus::Decayer::parent_] set LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}.M_[(elem(cyclus::Decayer::parent_).second.first-1)][(elem(cyclus::Decayer::parent_).second.first-1)](0) IF ANY($0: !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)) & exp((-2.90304e+09*elem(cyclus::Decayer::parent_).second.second)) == 0
  [for cyclus::Decayer::parent_] set LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}.M_[(elem(cyclus::Decayer::parent_).second.first-1)][(elem(cyclus::Decayer::parent_).second.first-1)]((-elem(cyclus::Decayer::parent_).second.second)) IF ANY($0: !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)) & !exp((-2.90304e+09*elem(cyclus::Decayer::parent_).second.second)) == 0
  [for cyclus::Decayer::parent_] [for cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]] set LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}.M_[(cyclus::Decayer::parent_[elem(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]).first].first-1)][(elem(cyclus::Decayer::parent_).second.first-1)](0) IF ANY($0: !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)) & !empty(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]) & exp((-2.90304e+09*elem(cyclus::Decayer::parent_).second.second)) == 0
  [for cyclus::Decayer::parent_] [for cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]] set LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}.M_[(cyclus::Decayer::parent_[elem(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]).first].first-1)][(elem(cyclus::Decayer::parent_).second.first-1)]((elem(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]).second*elem(cyclus::Decayer::parent_).second.second)) IF ANY($0: !has(~cyclus::Decayer::nuclides_tracked_,elem($0).first)) & !empty(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]) & !exp((-2.90304e+09*elem(cyclus::Decayer::parent_).second.second)) == 0
  set this.pre_vect_(LMatrix{size(cyclus::Decayer::parent_),1}) IF T
  [for $0] set LMatrix{size(cyclus::Decayer::parent_),1}.M_[(cyclus::Decayer::parent_[elem($0).first].first-1)][0](elem($0).second) IF T
  seq 3<6 4<6 6<9
fn cyclus::Decayer::AddNucToMaps
  put cyclus::Decayer::parent_.put($0, pair((size(cyclus::Decayer::parent_)+1),pyne::decay_const($0))) IF !has(cyclus::Decayer::nuclides_tracked_,$0)
  add cyclus::Decayer::nuclides_tracked_.add($0) IF !has(cyclus::Decayer::nuclides_tracked_,$0)
  call pyne::decay_children($0) IF !has(cyclus::Decayer::nuclides_tracked_,$0)
  [for pyne::decay_children($0)] call cyclus::Decayer::AddNucToMaps(elem(pyne::decay_children($0))) IF !has(cyclus::Decayer::nuclides_tracked_,$0)
  [for pyne::decay_children($0)] call pyne::branch_ratio($0, elem(pyne::decay_children($0))) IF !has(cyclus::Decayer::nuclides_tracked_,$0)
  [for pyne::decay_children($0)] put @vector<pair<int, double>>.put(idx(pyne::decay_children($0)), pair(elem(pyne::decay_children($0)),pyne::branch_ratio($0,elem(pyne::decay_children($0))))) IF !has(cyclus::Decayer::nuclides_tracked_,$0)
  put cyclus::Decayer::daughters_.put((size(cyclus::Decayer::parent_)+1), fold(pyne::decay_children($0); @vector<pair<int, double>>{size(pyne::decay_children($0))}; ~')) IF !has(cyclus::Decayer::nuclides_tracked_,$0)
  seq 0<3 1<3 3<6
fn cyclus::Decayer::IsNucTracked
  ret return(true) IF has(cyclus::Decayer::nuclides_tracked_,$0)
fn cyclus::Decayer::AddNucToList
  add cyclus::Decayer::nuclides_tracked_.add($0) IF !has(cyclus::Decayer::nuclides_tracked_,$0)
fn cyclus::Decayer::GetResult
  [for cyclus::Decayer::parent_] put $0.put(elem(cyclus::Decayer::parent_).first, this.post_vect_.M_[(cyclus::Decayer::parent_[elem(cyclus::Decayer::parent_).first].first-1)][0]) IF !(cyclus::Decayer::parent_[elem(cyclus::Decayer::parent_).first].first-this.post_vect_.rows_) >= 1 & this.post_vect_.M_[(cyclus::Decayer::parent_[elem(cyclus::Decayer::parent_).first].first-1)][0] > 0
fn cyclus::Decayer::BuildDecayMatrix
  set cyclus::Decayer::decay_matrix_(LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}) IF T
  [for cyclus::Decayer::parent_] set LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}.M_[(elem(cyclus::Decayer::parent_).second.first-1)][(elem(cyclus::Decayer::parent_).second.first-1)](0) IF exp((-2.90304e+09*elem(cyclus::Decayer::parent_).second.second)) == 0
  [for cyclus::Decayer::parent_] set LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}.M_[(elem(cyclus::Decayer::parent_).second.first-1)][(elem(cyclus::Decayer::parent_).second.first-1)]((-elem(cyclus::Decayer::parent_).second.second)) IF !exp((-2.90304e+09*elem(cyclus::Decayer::parent_).second.second)) == 0
  [for cyclus::Decayer::parent_] [for cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]] set LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}.M_[(cyclus::Decayer::parent_[elem(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]).first].first-1)][(elem(cyclus::Decayer::parent_).second.first-1)](0) IF !empty(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]) & exp((-2.90304e+09*elem(cyclus::Decayer::parent_).second.second)) == 0
  [for cyclus::Decayer::parent_] [for cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]] set LMatrix{size(cyclus::Decayer::parent_),size(cyclus::Decayer::parent_)}.M_[(cyclus::Decayer::parent_[elem(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]).first].first-1)][(elem(cyclus::Decayer::parent_).second.first-1)]((elem(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]).second*elem(cyclus::Decayer::parent_).second.second)) IF !empty(cyclus::Decayer::daughters_[elem(cyclus::Decayer::parent_).second.first]) & !exp((-2.90304e+09*elem(cyclus::Decayer::parent_).second.second)) == 0
fn cyclus::Decayer::Decay
  call cyclus::Warn("the cyclus decayer has not yet been benchmarked and should be considered experimental.", of(cyclus::VALIDATION_WARNING)) IF T
  call cyclus::UniformTaylor::MatrixExpSolver(cyclus::Decayer::decay_matrix_, this.pre_vect_, $0) IF T
  set this.post_vect_(cyclus::UniformTaylor::MatrixExpSolver(cyclus::Decayer::decay_matrix_,this.pre_vect_,$0)) IF T
fn cyclus::Decayer::n_tracked_nuclides
  ret return(size(cyclus::Decayer::nuclides_tracked_)) IF T
fn cyclus::Decayer::TrackedNuclide
  ret return(cyclus::Decayer::nuclides_tracked_[$0]) IF T
