fn cyclus::LMatrix::LMatrix | 
  set this.M_(vector{}) IF T
  set this.rows_(1) IF T
  set this.cols_(1) IF T
  add this.M_.add(vector{1}) IF T
fn cyclus::LMatrix::LMatrix | int; int
  set this.M_(vector{}) IF T
  set this.rows_($0) IF T
  set this.cols_($1) IF T
  call vector{}.std::vector::assign($0, vector{$1}) IF T
fn cyclus::LMatrix::NumRows
  ret return(this.rows_) IF T
fn cyclus::LMatrix::NumCols
  ret return(this.cols_) IF T
fn cyclus::LMatrix::operator() | int; int const
  ret return(this.M_[($0-1)][($1-1)]) IF T
fn cyclus::LMatrix::SetElement
  put this.M_[($0-1)].put(($1-1), $2) IF T
fn cyclus::LMatrix::operator() | int; int
  ret return(this.M_[($0-1)][($1-1)]) IF T
fn cyclus::LMatrix::AddRow
  add this.M_.add($0) IF size($0) == this.cols_
  set this.rows_((this.rows_+1)) IF size($0) == this.cols_
fn cyclus::LMatrix::operator=
  ret return(this) IF T
  set this.rows_($0.rows_) IF !$0 == this
  set this.cols_($0.cols_) IF !$0 == this
  call this.M_.std::vector::assign($0.rows_, vector{$0.cols_}) IF !$0 == this
  [for range($0.rows_)] [for range($0.cols_)] put this.M_'[idx(range($0.rows_))].put(idx(range($0.cols_)), $0.M_[idx(range($0.rows_))][idx(range($0.cols_))]) IF !$0 == this
fn cyclus::LMatrix::operator+=
  [for range(this.rows_)] [for range(this.cols_)] put this.M_[idx(range(this.rows_))].put(idx(range(this.cols_)), ($0.M_[idx(range(this.rows_))][idx(range(this.cols_))]+~this.M_[idx(range(this.rows_))][idx(range(this.cols_))])) IF $0.cols_ == this.cols_ & $0.rows_ == this.rows_
  ret return(this) IF T
fn cyclus::LMatrix::operator-=
  [for range(this.rows_)] [for range(this.cols_)] put this.M_[idx(range(this.rows_))].put(idx(range(this.cols_)), (-$0.M_[idx(range(this.rows_))][idx(range(this.cols_))]+~this.M_[idx(range(this.rows_))][idx(range(this.cols_))])) IF $0.cols_ == this.cols_ & $0.rows_ == this.rows_
  ret return(this) IF T
fn cyclus::LMatrix::operator*=
  [for range(this.rows_)] [for range($0.cols_)] put @LMatrix{LMatrix{this.rows_,$0.cols_}}.M_[idx(range(this.rows_))].put(idx(range($0.cols_)), fold(range(this.cols_); 0; (($0.M_[idx(range(this.cols_))][idx(range($0.cols_))]*this.M_[idx(range(this.rows_))][idx(range(this.cols_))])+~))) IF $0.rows_ == this.cols_
  set this(@LMatrix{LMatrix{this.rows_,$0.cols_}}) IF $0.rows_ == this.cols_
  ret return(this) IF T
fn cyclus::operator+
  ret return($0 ++ $1) IF T
fn cyclus::operator-
  ret return(($0 - $1)) IF T
fn cyclus::operator* | const cyclus::LMatrix &; const cyclus::LMatrix &
  ret return(($0 * $1)) IF T
fn cyclus::operator* | const long double; const cyclus::LMatrix &
  [for range($1.rows_)] [for range($1.cols_)] put @LMatrix{$1}.M_[idx(range($1.rows_))].put(idx(range($1.cols_)), ($0*$1.M_[idx(range($1.rows_))][idx(range($1.cols_))])) IF T
  ret return(@LMatrix{$1}) IF T
fn cyclus::operator* | const cyclus::LMatrix &; const long double
  [for range($0.rows_)] [for range($0.cols_)] put @LMatrix{$0}.M_[idx(range($0.rows_))].put(idx(range($0.cols_)), ($0.M_[idx(range($0.rows_))][idx(range($0.cols_))]*$1)) IF T
  ret return(@LMatrix{$0}) IF T
fn cyclus::operator^
  ret return(fold(times(($1-1)); $0; (~ * $0))) IF $0.cols_ == $0.rows_
  ret return($0) IF !$0.cols_ == $0.rows_
fn cyclus::identity
  [for range($0)] call LMatrix{$0,$0}.cyclus::LMatrix::SetElement((idx(range($0))+1), (idx(range($0))+1), 1) IF T
  ret return(LMatrix{$0,$0}) IF T
fn cyclus::UniformTaylor::MaxAbsDiag
  ret return(fold(range(($0.rows_-1)); abs($0.M_[0][0]); max(abs($0.M_[(idx(range(($0.rows_-1)))+1)][(idx(range(($0.rows_-1)))+1)]),~))) IF T
fn cyclus::UniformTaylor::GetSolutionVector
  throw cyclus::ValueError() IF __builtin_huge_val() == std::exp(($2*$3)) | std::exp((-($2*$3))) == 0
  ret return(fold(range(iters(while)); (std::exp((-($2*$3))) * $1); ~ ++ ((($3/(idx(range(iters(while)))+1)) * $0) * ~))) IF !__builtin_huge_val() == std::exp(($2*$3)) & !std::exp((-($2*$3))) == 0
  carry fold(while; 1; ((($2*$3)/~)*~))
  carry fold(while; 1; (((($2*$3)/~)*~)+~))
  leave !(((-$4+1)*std::exp(($2*$3)))-~) > 0
fn cyclus::UniformTaylor::MaxNumTerms
  throw cyclus::ValueError() IF __builtin_huge_val() == std::exp($0)
  ret return((iters(while)+1)) IF !__builtin_huge_val() == std::exp($0)
  carry fold(while; 1; (($0/~)*~))
  carry fold(while; 1; ((($0/~)*~)+~))
  leave !(((-$1+1)*std::exp($0))-~) > 0
fn cyclus::UniformTaylor::MatrixExpSolver
  stop: UniformTaylor::
  throw cyclus::ValueError() IF !$0.rows_ == $1.rows_
  call cyclus::UniformTaylor::MaxAbsDiag($0) IF $0.rows_ == $1.rows_
  call cyclus::identity($0.rows_) IF $0.rows_ == $1.rows_
  call cyclus::UniformTaylor::GetSolutionVector((cyclus::UniformTaylor::MaxAbsDiag($0) * cyclus::identity($0.rows_)) ++ $0, $1, cyclus::UniformTaylor::MaxAbsDiag($0), $2, 0.001) IF $0.rows_ == $1.rows_
  ret return(cyclus::UniformTaylor::GetSolutionVector((cyclus::UniformTaylor::MaxAbsDiag($0) * cyclus::identity($0.rows_)) ++ $0,$1,cyclus::UniformTaylor::MaxAbsDiag($0),$2,0.001)) IF $0.rows_ == $1.rows_
