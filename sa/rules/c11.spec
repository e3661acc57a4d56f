fn cyclus::Composition::CreateFromAtom
  set new Composition{}.atom_($0) IF cyclus::compmath::AllPositive($0) & cyclus::compmath::ValidNucs($0)
  ret return(new Composition{}) IF cyclus::compmath::AllPositive($0) & cyclus::compmath::ValidNucs($0)
  throw cyclus::ValueError() IF !cyclus::compmath::AllPositive($0) | !cyclus::compmath::ValidNucs($0)
fn cyclus::Composition::CreateFromMass
  set new Composition{}.mass_($0) IF cyclus::compmath::AllPositive($0) & cyclus::compmath::ValidNucs($0)
  ret return(new Composition{}) IF cyclus::compmath::AllPositive($0) & cyclus::compmath::ValidNucs($0)
  throw cyclus::ValueError() IF !cyclus::compmath::AllPositive($0) | !cyclus::compmath::ValidNucs($0)
fn cyclus::Composition::id
  ret return(this.id_) IF T
fn cyclus::Composition::atom
  [for this.mass_] put this.atom_.put(elem(this.mass_).first, (elem(this.mass_).second/pyne::atomic_mass(elem(this.mass_).first))) IF empty(this.atom_)
  ret return(this.atom_) IF T
fn cyclus::Composition::mass
  [for this.atom_] put this.mass_.put(elem(this.atom_).first, (elem(this.atom_).second*pyne::atomic_mass(elem(this.atom_).first))) IF empty(this.mass_)
  ret return(this.mass_) IF T
fn cyclus::Composition::Record
  set this.recorded_(true) IF !this.recorded_
  [for this.atom_] put this.mass_.put(elem(this.atom_).first, (elem(this.atom_).second*pyne::atomic_mass(elem(this.atom_).first))) IF empty(this.mass_) & !this.recorded_
  call cyclus::compmath::Normalize(this.mass_, 1) IF !this.recorded_
  [for this.mass_] call $0.rec_.NewDatum("Compositions").cyclus::Datum::AddVal("QualId", this.id_) IF !this.recorded_
  [for this.mass_] call $0.rec_.NewDatum("Compositions").cyclus::Datum::AddVal("NucId", elem(this.mass_).first) IF !this.recorded_
  [for this.mass_] call $0.rec_.NewDatum("Compositions").cyclus::Datum::AddVal("MassFrac", elem(this.mass_).second) IF !this.recorded_
  [for this.mass_] call $0.rec_.NewDatum("Compositions").cyclus::Datum::Record() IF !this.recorded_
fn cyclus::Composition::Composition | 
  set this.recorded_(false) IF T
  set this.atom_(map{}) IF T
  set this.mass_(map{}) IF T
  set this.prev_decay_(0) IF T
  set this.id_(cyclus::Composition::next_id_) IF T
  set cyclus::Composition::next_id_((cyclus::Composition::next_id_+1)) IF T
  set this.decay_line_(new map{}) IF T
fn cyclus::Composition::Composition | int; boost::shared_ptr<std::map<int, boost::shared_ptr<cyclus::Composition>>>
  set this.decay_line_($1) IF T
  set this.recorded_(false) IF T
  set this.atom_(map{}) IF T
  set this.mass_(map{}) IF T
  set this.prev_decay_($0) IF T
  set this.id_(cyclus::Composition::next_id_) IF T
  set cyclus::Composition::next_id_((cyclus::Composition::next_id_+1)) IF T
fn cyclus::compmath::Add
  [for $1] put @map<int, double>.put(elem($1).first, (elem($1).second+~[elem($1).first])) IF T
  ret return(fold($1; @map<int, double>{$0}; ~')) IF T
fn cyclus::compmath::Sub
  [for $1] put @map<int, double>.put(elem($1).first, (-elem($1).second+~[elem($1).first])) IF T
  ret return(fold($1; @map<int, double>{$0}; ~')) IF T
fn cyclus::compmath::Sum
  call cyclus::CycArithmetic::KahanSum(map($0; elem($0).second)) IF T
  ret return(cyclus::CycArithmetic::KahanSum(map($0; elem($0).second))) IF T
fn cyclus::compmath::ApplyThreshold
  throw cyclus::ValueError() IF !$1 >= 0
  [for while] del $0.erase(~) IF $1 >= 0 & ($1-abs(~.second)) >= 0 & !~ == ~.end()
  leave ~ == ~.end()
fn cyclus::compmath::Normalize
  default 1 = 1
  call cyclus::CycArithmetic::KahanSum(map($0; elem($0).second)) IF T
  [for $0] set elem($0).second((($1/cyclus::CycArithmetic::KahanSum(map($0; elem($0).second)))*elem($0).second)) IF !$1 == cyclus::CycArithmetic::KahanSum(map($0; elem($0).second)) & !cyclus::CycArithmetic::KahanSum(map($0; elem($0).second)) == 0
fn cyclus::compmath::ValidNucs
  ret return(true) IF !ANY($0: !pyne::nucname::isnuclide(elem($0).first))
fn cyclus::compmath::AllPositive
  ret return(true) IF !ANY($0: !elem($0).second >= 0)
fn cyclus::compmath::AlmostEq
  throw cyclus::ValueError() IF !$2 >= 0
  ret return(true) IF $2 >= 0 & !ANY($0: !(($2*abs($1[elem($0).first]))-abs(($1[elem($0).first]-elem($0).second))) >= 0 & !abs($1[elem($0).first]) == 0 & !abs(elem($0).second) == 0) & !ANY($0: !(($2*abs(($1[elem($0).first]-elem($0).second)))-abs(($1[elem($0).first]-elem($0).second))) >= 0 & abs($1[elem($0).first]) == 0) & !ANY($0: !(($2*abs(($1[elem($0).first]-elem($0).second)))-abs(($1[elem($0).first]-elem($0).second))) >= 0 & abs(elem($0).second) == 0) & !ANY($0: !(($2*abs(elem($0).second))-abs(($1[elem($0).first]-elem($0).second))) >= 0 & !abs($1[elem($0).first]) == 0 & !abs(elem($0).second) == 0) & !ANY($0: !has($1,elem($0).first)) & size($0) == size($1) | $2 >= 0 & empty($0) & empty($1) & size($0) == size($1)
fn cyclus::CycArithmetic::KahanSum
  call std::sort($0.begin(), $0.end()) IF T
  ret return(fold($0; 0; elem($0))) IF T
  carry fold($0; 0; 0)
fn cyclus::CycArithmetic::sort_inplace_ascending
  call std::sort($0.begin(), $0.end()) IF T
fn cyclus::CycArithmetic::sort_ascending | std::vector<double>
  call std::sort($0.begin(), $0.end()) IF T
  ret return($0) IF T
fn cyclus::CycArithmetic::sort_ascending | std::map<int, double>
  call std::sort(map($0; elem($0).second).begin(), map($0; elem($0).second).end()) IF T
  ret return(map($0; elem($0).second)) IF T
fn cyclus::eps
  ret return(cyclus::cy_eps) IF T
fn cyclus::eps_rsrc
  ret return(cyclus::cy_eps_rsrc) IF T
fn cyclus::IsNegative
  ret return(true) IF !($0+cyclus::cy_eps) >= 0
fn cyclus::AlmostEq
  ret return(true) IF !(abs(($0-$1))-cyclus::cy_eps) >= 0
init cyclus::CY_LARGE_DOUBLE = 1e+299
init cyclus::CY_LARGE_INT = 2147483647
init cyclus::CY_NEAR_ZERO = 1e-08
init cyclus::cy_eps = 1e-06
init cyclus::cy_eps_rsrc = 1e-06
init cyclus::float_ulp_eq = 2
init cyclus::units::g = (0.001*cyclus::units::kg)
init cyclus::units::kg = 1
init cyclus::units::mg = (1e-06*cyclus::units::kg)
init cyclus::units::ug = (1e-09*cyclus::units::kg)
