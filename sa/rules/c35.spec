fn cyclus::toolkit::Assays::Assays
  set this.feed_($0) IF T
  set this.product_($1) IF T
  set this.tails_($2) IF T
fn cyclus::toolkit::Assays::Feed
  ret return(this.feed_) IF T
fn cyclus::toolkit::Assays::Product
  ret return(this.product_) IF T
fn cyclus::toolkit::Assays::Tails
  ret return(this.tails_) IF T
fn cyclus::toolkit::UraniumAssay
  call toolkit::MatQuery{$0}.cyclus::toolkit::MatQuery::atom_frac(922350000) IF T
  call toolkit::MatQuery{$0}.cyclus::toolkit::MatQuery::atom_frac(922380000) IF T
  ret return((toolkit::MatQuery{$0}.atom_frac(922350000)/(toolkit::MatQuery{$0}.atom_frac(922350000)+toolkit::MatQuery{$0}.atom_frac(922380000)))) IF (toolkit::MatQuery{$0}.atom_frac(922350000)+toolkit::MatQuery{$0}.atom_frac(922380000)) > 0
  ret return(0) IF !(toolkit::MatQuery{$0}.atom_frac(922350000)+toolkit::MatQuery{$0}.atom_frac(922380000)) > 0
fn cyclus::toolkit::UraniumAssayAtom
  call toolkit::MatQuery{$0}.cyclus::toolkit::MatQuery::atom_frac(922350000) IF T
  call toolkit::MatQuery{$0}.cyclus::toolkit::MatQuery::atom_frac(922380000) IF T
  ret return((toolkit::MatQuery{$0}.atom_frac(922350000)/(toolkit::MatQuery{$0}.atom_frac(922350000)+toolkit::MatQuery{$0}.atom_frac(922380000)))) IF (toolkit::MatQuery{$0}.atom_frac(922350000)+toolkit::MatQuery{$0}.atom_frac(922380000)) > 0
  ret return(0) IF !(toolkit::MatQuery{$0}.atom_frac(922350000)+toolkit::MatQuery{$0}.atom_frac(922380000)) > 0
fn cyclus::toolkit::UraniumAssayMass
  call toolkit::MatQuery{$0}.cyclus::toolkit::MatQuery::mass_frac(922350000) IF T
  call toolkit::MatQuery{$0}.cyclus::toolkit::MatQuery::mass_frac(922380000) IF T
  ret return((toolkit::MatQuery{$0}.mass_frac(922350000)/(toolkit::MatQuery{$0}.mass_frac(922350000)+toolkit::MatQuery{$0}.mass_frac(922380000)))) IF (toolkit::MatQuery{$0}.mass_frac(922350000)+toolkit::MatQuery{$0}.mass_frac(922380000)) > 0
  ret return(0) IF !(toolkit::MatQuery{$0}.mass_frac(922350000)+toolkit::MatQuery{$0}.mass_frac(922380000)) > 0
fn cyclus::toolkit::UraniumQty
  call toolkit::MatQuery{$0}.cyclus::toolkit::MatQuery::mass_frac(922350000) IF T
  call toolkit::MatQuery{$0}.cyclus::toolkit::MatQuery::mass_frac(922380000) IF T
  ret return(((toolkit::MatQuery{$0}.m_.qty_*toolkit::MatQuery{$0}.mass_frac(922350000))+(toolkit::MatQuery{$0}.m_.qty_*toolkit::MatQuery{$0}.mass_frac(922380000)))) IF T
fn cyclus::toolkit::FeedQty
  ret return(($0*(($1.product_-$1.tails_)/($1.feed_-$1.tails_)))) IF T
fn cyclus::toolkit::TailsQty
  ret return(($0*((-$1.feed_+$1.product_)/($1.feed_-$1.tails_)))) IF T
fn cyclus::toolkit::ValueFunc
  throw cyclus::ValueError() IF !$0 >= 0 | $0 >= 1
  ret return(((-2*$0+1)*log(((1/$0)-1)))) IF $0 >= 0 & !$0 >= 1
fn cyclus::toolkit::SwuRequired
  throw cyclus::ValueError() IF !$1.feed_ >= 0 | !$1.product_ >= 0 | !$1.tails_ >= 0 | $1.feed_ >= 1 | $1.product_ >= 1 | $1.tails_ >= 1
  ret return((-($0*(($1.product_-$1.tails_)/($1.feed_-$1.tails_))*(-2*$1.feed_+1)*log(((1/$1.feed_)-1)))+($0*((-$1.feed_+$1.product_)/($1.feed_-$1.tails_))*(-2*$1.tails_+1)*log(((1/$1.tails_)-1)))+($0*(-2*$1.product_+1)*log(((1/$1.product_)-1))))) IF $1.feed_ >= 0 & !$1.feed_ >= 1 & $1.product_ >= 0 & !$1.product_ >= 1 & $1.tails_ >= 0 & !$1.tails_ >= 1
fn cyclus::toolkit::MatQuery::MatQuery
  set this.m_($0) IF T
fn cyclus::toolkit::MatQuery::qty
  ret return(this.m_.qty_) IF T
fn cyclus::toolkit::MatQuery::mass | int
  call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  ret return((this.m_.comp().mass()[$0]*this.m_.qty_)) IF T
fn cyclus::toolkit::MatQuery::moles | int
  call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  ret return(((this.m_.comp().mass()[$0]*this.m_.qty_)/(cyclus::units::g*pyne::atomic_mass($0)))) IF T
fn cyclus::toolkit::MatQuery::mass_frac | int
  call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  ret return(this.m_.comp().mass()[$0]) IF T
fn cyclus::toolkit::MatQuery::mass_frac | std::set<int>
  [for $0] call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  ret return((fold($0; 0; ((this.m_.comp().mass()[elem($0)]*this.m_.qty_)+~))/this.m_.qty_)) IF T
fn cyclus::toolkit::MatQuery::atom_frac | int
  call cyclus::compmath::Normalize(this.m_.comp().atom()) IF T
  ret return(this.m_.comp().atom()[$0]) IF T
fn cyclus::toolkit::MatQuery::atom_frac | std::set<int>
  call cyclus::compmath::Normalize(this.m_.comp().atom()) IF T
  ret return(fold($0; 0; !has(this.m_.comp().atom(),elem($0)):~ ; has(this.m_.comp().atom(),elem($0)):(this.m_.comp().atom()[elem($0)]+~))) IF T
fn cyclus::toolkit::MatQuery::mass | std::basic_string<char>
  call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  ret return((this.m_.comp().mass()[pyne::nucname::id($0)]*this.m_.qty_)) IF T
fn cyclus::toolkit::MatQuery::moles | std::basic_string<char>
  call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  ret return(((this.m_.comp().mass()[pyne::nucname::id($0)]*this.m_.qty_)/(cyclus::units::g*pyne::atomic_mass(pyne::nucname::id($0))))) IF T
fn cyclus::toolkit::MatQuery::mass_frac | std::basic_string<char>
  call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  ret return(this.m_.comp().mass()[pyne::nucname::id($0)]) IF T
fn cyclus::toolkit::MatQuery::atom_frac | std::basic_string<char>
  call cyclus::compmath::Normalize(this.m_.comp().atom()) IF T
  ret return(this.m_.comp().atom()[pyne::nucname::id($0)]) IF T
fn cyclus::toolkit::MatQuery::AlmostEq
  default 1 = cyclus::cy_eps_rsrc
  call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  call cyclus::compmath::Normalize($0.comp().mass()) IF T
  ret return(cyclus::compmath::AlmostEq(this.m_.comp().mass(),$0.comp().mass(),$1)) IF T
fn cyclus::toolkit::MatQuery::Amount
  call cyclus::compmath::Normalize(this.m_.comp().mass()) IF T
  call cyclus::compmath::Normalize($0.mass()) IF T
  ret return(0) IF ANY($0.mass(): elem($0.mass()).second > 0 & !has(this.m_.comp().mass(),elem($0.mass()).first))
  call cyclus::compmath::Normalize($0.mass(), (fold($0.mass(); cyclus::CY_LARGE_DOUBLE; min((this.m_.comp().mass()[elem($0.mass()).first]/elem($0.mass()).second),~))*this.m_.qty_)) IF !ANY($0.mass(): elem($0.mass()).second > 0 & !has(this.m_.comp().mass(),elem($0.mass()).first))
  ret return(fold($0.mass(); 0; (elem($0.mass()).second+~))) IF !ANY($0.mass(): elem($0.mass()).second > 0 & !has(this.m_.comp().mass(),elem($0.mass()).first))
fn cyclus::toolkit::Position::Position | 
  set this.latitude_(0) IF T
  set this.longitude_(0) IF T
fn cyclus::toolkit::Position::Position | double; double
  throw cyclus::ValueError() IF !$0 >= -90 | !$1 >= -180 | $0 > 90 | $1 > 180
  set this.latitude_((floor((((3600*$0)*std::pow(10,1))+0.5))/std::pow(10,1))) IF T
  set this.longitude_((floor((((3600*$1)*std::pow(10,1))+0.5))/std::pow(10,1))) IF T
fn cyclus::toolkit::Position::~Position
fn cyclus::toolkit::Position::latitude | const
  ret return((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6))) IF T
fn cyclus::toolkit::Position::longitude | const
  ret return((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6))) IF T
fn cyclus::toolkit::Position::latitude | double
  throw cyclus::ValueError() IF !$0 >= -90 | $0 > 90
  set this.latitude_((floor((((3600*$0)*std::pow(10,1))+0.5))/std::pow(10,1))) IF !$0 > 90 & $0 >= -90
fn cyclus::toolkit::Position::longitude | double
  throw cyclus::ValueError() IF !$0 >= -180 | $0 > 180
  set this.longitude_((floor((((3600*$0)*std::pow(10,1))+0.5))/std::pow(10,1))) IF !$0 > 180 & $0 >= -180
fn cyclus::toolkit::Position::set_position
  throw cyclus::ValueError() IF !$0 >= -90 | !$1 >= -180 | $0 > 90 | $1 > 180
  set this.latitude_((floor((((3600*$0)*std::pow(10,1))+0.5))/std::pow(10,1))) IF !$0 > 90 & $0 >= -90 & !$1 > 180 & $1 >= -180
  set this.longitude_((floor((((3600*$1)*std::pow(10,1))+0.5))/std::pow(10,1))) IF !$0 > 90 & $0 >= -90 & !$1 > 180 & $1 >= -180
fn cyclus::toolkit::Position::LatCheck
  throw cyclus::ValueError() IF !$0 >= -90 | $0 > 90
fn cyclus::toolkit::Position::LonCheck
  throw cyclus::ValueError() IF !$0 >= -180 | $0 > 180
fn cyclus::toolkit::Position::Distance
  ret return((12745.6*atan2(sqrt(((cos((0.0174533*(floor((((0.000277778*$0.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6))))*cos((0.0174533*(floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6))))*std::pow(sin((0.00872665*(floor((((0.000277778*$0.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6))-0.00872665*(floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)))),2))+std::pow(sin((0.00872665*(floor((((0.000277778*$0.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6))-0.00872665*(floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)))),2))),sqrt((-(cos((0.0174533*(floor((((0.000277778*$0.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6))))*cos((0.0174533*(floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6))))*std::pow(sin((0.00872665*(floor((((0.000277778*$0.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6))-0.00872665*(floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)))),2))-std::pow(sin((0.00872665*(floor((((0.000277778*$0.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6))-0.00872665*(floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)))),2)+1))))) IF T
fn cyclus::toolkit::Position::SetPrecision
  ret return(floor($0)) IF $1 == 0
  ret return((floor((($0*std::pow(10,$1))+0.5))/std::pow(10,$1))) IF !$1 == 0
fn cyclus::toolkit::Position::ToString
  default 0 = cyclus::toolkit::Position::DEGREES
  ret return(phi{"+" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.latitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))} ++ phi{"+" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+00" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-00" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|@basic_stringstream<char>|phi{"+" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))}|phi{"+" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+00" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+00" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-00" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-00" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))}} ++ "/") IF $0 == cyclus::toolkit::Position::DEGREES | $0 == cyclus::toolkit::Position::DEGREES_MINUTES | $0 == cyclus::toolkit::Position::DEGREES_MINUTES_SECONDS
  ret return(@basic_stringstream<char> ++ phi{"+" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+00" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-00" ++ std::setprecision(7) ++ abs((<uninit>'+modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|@basic_stringstream<char>|phi{"+" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"+00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))|"-00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>))),<uninit>))}|phi{"+" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+00" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"+00" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-00" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))|"-00" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf((floor((((0.000277778*this.longitude_)*std::pow(10,6))+0.5))/std::pow(10,6)),<uninit>)))}} ++ "/") IF !$0 == cyclus::toolkit::Position::DEGREES & !$0 == cyclus::toolkit::Position::DEGREES_MINUTES & !$0 == cyclus::toolkit::Position::DEGREES_MINUTES_SECONDS
fn cyclus::toolkit::Position::ToStringHelperLat
  ret return(phi{"+"|"+" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|"+0"|"+0" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+0" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|"-"|"-" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|"-0"|"-0" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-0" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))}) IF T
fn cyclus::toolkit::Position::ToStringHelperLon
  ret return(phi{"+"|"+" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|"+0"|"+0" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|"+00"|"+00" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|"-"|"-" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|"-0"|"-0" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|"-00"|"-00" ++ std::setprecision(7) ++ abs((<uninit>'+modf($1,<uninit>)))|phi{"+" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+0" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"+00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-0" ++ abs(<uninit>') ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))|"-00" ++ abs(<uninit>') ++ "0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs(modf($1,<uninit>))),<uninit>))}|phi{"+" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+00" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"+00" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-0" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-00" ++ abs(<uninit>') ++ "0" ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))|"-00" ++ abs(<uninit>') ++ std::setprecision(5) ++ (60*abs(modf($1,<uninit>)))}}) IF T
fn cyclus::toolkit::Position::ToStringHelper
  ret return("+") IF $0 > 0
  ret return("-") IF !$0 > 0
fn cyclus::toolkit::Position::ToStringHelperDM
  ret return("0" ++ std::setprecision(5) ++ (60*abs($0))) IF (abs((60*abs($0)))/10) == 0
  ret return(std::setprecision(5) ++ (60*abs($0))) IF !(abs((60*abs($0)))/10) == 0
fn cyclus::toolkit::Position::ToStringHelperDMS
  ret return("0" ++ abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs($0)),<uninit>))) IF (<uninit>'/10) == 0 & (abs((60*modf((60*abs($0)),<uninit>)))/10) == 0
  ret return(abs(<uninit>') ++ "0" ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs($0)),<uninit>))) IF !(<uninit>'/10) == 0 & (abs((60*modf((60*abs($0)),<uninit>)))/10) == 0
  ret return("0" ++ abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs($0)),<uninit>))) IF (<uninit>'/10) == 0 & !(abs((60*modf((60*abs($0)),<uninit>)))/10) == 0
  ret return(abs(<uninit>') ++ std::setprecision(1) ++ std::fixed ++ (60*modf((60*abs($0)),<uninit>))) IF !(<uninit>'/10) == 0 & !(abs((60*modf((60*abs($0)),<uninit>)))/10) == 0
fn cyclus::toolkit::RecordTimeSeries<cyclus::toolkit::POWER> | cyclus::Agent *; double; std::basic_string<char>
  default 2 = ""
  call $0.ctx_.rec_.NewDatum("TimeSeriesPower").cyclus::Datum::AddVal("AgentId", $0.id_) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesPower").cyclus::Datum::AddVal("Time", $0.ctx_.ti_.time_) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesPower").cyclus::Datum::AddVal("Value", $1) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesPower").cyclus::Datum::AddVal("Units", $2) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesPower").cyclus::Datum::Record() IF T
  call cyclus::toolkit::PyCallListeners("Power", $0, $0.ctx_, $0.ctx_.ti_.time_, $1) IF T
fn cyclus::toolkit::RecordTimeSeries<cyclus::toolkit::ENRICH_SWU> | cyclus::Agent *; double; std::basic_string<char>
  default 2 = ""
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentSWU").cyclus::Datum::AddVal("AgentId", $0.id_) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentSWU").cyclus::Datum::AddVal("Time", $0.ctx_.ti_.time_) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentSWU").cyclus::Datum::AddVal("Value", $1) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentSWU").cyclus::Datum::AddVal("Units", $2) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentSWU").cyclus::Datum::Record() IF T
  call cyclus::toolkit::PyCallListeners("EnrichmentSWU", $0, $0.ctx_, $0.ctx_.ti_.time_, $1) IF T
fn cyclus::toolkit::RecordTimeSeries<cyclus::toolkit::ENRICH_FEED> | cyclus::Agent *; double; std::basic_string<char>
  default 2 = ""
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentFeed").cyclus::Datum::AddVal("AgentId", $0.id_) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentFeed").cyclus::Datum::AddVal("Time", $0.ctx_.ti_.time_) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentFeed").cyclus::Datum::AddVal("Value", $1) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentFeed").cyclus::Datum::AddVal("Units", $2) IF T
  call $0.ctx_.rec_.NewDatum("TimeSeriesEnrichmentFeed").cyclus::Datum::Record() IF T
  call cyclus::toolkit::PyCallListeners("EnrichmentFeed", $0, $0.ctx_, $0.ctx_.ti_.time_, $1) IF T
fn cyclus::toolkit::RecordTimeSeries<double> | std::basic_string<char>; cyclus::Agent *; double; std::basic_string<char>
  default 3 = ""
  call $1.ctx_.rec_.NewDatum("TimeSeries" ++ $0).cyclus::Datum::AddVal("AgentId", $1.id_) IF T
  call $1.ctx_.rec_.NewDatum("TimeSeries" ++ $0).cyclus::Datum::AddVal("Time", $1.ctx_.ti_.time_) IF T
  call $1.ctx_.rec_.NewDatum("TimeSeries" ++ $0).cyclus::Datum::AddVal("Value", $2) IF T
  call $1.ctx_.rec_.NewDatum("TimeSeries" ++ $0).cyclus::Datum::AddVal("Units", $3) IF T
  call $1.ctx_.rec_.NewDatum("TimeSeries" ++ $0).cyclus::Datum::Record() IF T
  call cyclus::toolkit::PyCallListeners($0, $1, $1.ctx_, $1.ctx_.ti_.time_, $2) IF T
fn cyclus::Timer::RecordInventories
  call $0.cyclus::Agent::SnapshotInv() IF T
  [for $0.SnapshotInv()] [for range((size(elem($0.SnapshotInv()).second)-1))] call dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).cyclus::Material::Absorb(dyn<cyclus::Material>(elem($0.SnapshotInv()).second[(idx(range((size(elem($0.SnapshotInv()).second)-1)))+1)].Clone())) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second)
  [for $0.SnapshotInv()] call cyclus::compmath::Normalize(dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass(), dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).qty_) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory
  [for $0.SnapshotInv()] [for dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("AgentId", $0.id_) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory
  [for $0.SnapshotInv()] [for dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("Time", this.time_) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory
  [for $0.SnapshotInv()] [for dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("InventoryName", elem($0.SnapshotInv()).first) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory
  [for $0.SnapshotInv()] [for dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("NucId", elem(dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()).first) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory
  [for $0.SnapshotInv()] [for dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("Quantity", elem(dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()).second) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory
  [for $0.SnapshotInv()] [for dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("Units", "kg") IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory
  [for $0.SnapshotInv()] [for dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::Record() IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory
  [for $0.SnapshotInv()] call cyclus::compmath::Normalize(dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass(), 1) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory_compact
  [for $0.SnapshotInv()] call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("AgentId", $0.id_) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory_compact
  [for $0.SnapshotInv()] call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("Time", this.time_) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory_compact
  [for $0.SnapshotInv()] call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("InventoryName", elem($0.SnapshotInv()).first) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory_compact
  [for $0.SnapshotInv()] call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("Quantity", dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).qty_) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory_compact
  [for $0.SnapshotInv()] call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("Units", "kg") IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory_compact
  [for $0.SnapshotInv()] call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("Composition", dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0].Clone()).comp().mass()) IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory_compact
  [for $0.SnapshotInv()] call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::Record() IF dyn<cyclus::Material>(elem($0.SnapshotInv()).second[0]) & !empty(elem($0.SnapshotInv()).second) & this.si_.explicit_inventory_compact
fn cyclus::Timer::RecordInventory
  call cyclus::compmath::Normalize($2.comp().mass(), $2.qty_) IF this.si_.explicit_inventory
  [for $2.comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("AgentId", $0.id_) IF this.si_.explicit_inventory
  [for $2.comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("Time", this.time_) IF this.si_.explicit_inventory
  [for $2.comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("InventoryName", $1) IF this.si_.explicit_inventory
  [for $2.comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("NucId", elem($2.comp().mass()).first) IF this.si_.explicit_inventory
  [for $2.comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("Quantity", elem($2.comp().mass()).second) IF this.si_.explicit_inventory
  [for $2.comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::AddVal("Units", "kg") IF this.si_.explicit_inventory
  [for $2.comp().mass()] call this.ctx_.rec_.NewDatum("ExplicitInventory").cyclus::Datum::Record() IF this.si_.explicit_inventory
  call cyclus::compmath::Normalize($2.comp().mass(), 1) IF this.si_.explicit_inventory_compact
  call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("AgentId", $0.id_) IF this.si_.explicit_inventory_compact
  call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("Time", this.time_) IF this.si_.explicit_inventory_compact
  call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("InventoryName", $1) IF this.si_.explicit_inventory_compact
  call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("Quantity", $2.qty_) IF this.si_.explicit_inventory_compact
  call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("Units", "kg") IF this.si_.explicit_inventory_compact
  call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::AddVal("Composition", $2.comp().mass()) IF this.si_.explicit_inventory_compact
  call this.ctx_.rec_.NewDatum("ExplicitInventoryCompact").cyclus::Datum::Record() IF this.si_.explicit_inventory_compact
