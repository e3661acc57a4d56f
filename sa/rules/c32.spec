fn cyclus::Cond::Cond | 
  set this.field("") IF T
  set this.op("") IF T
  set this.val(basic_hold_any{}) IF T
fn cyclus::Cond::Cond | std::basic_string<char>; std::basic_string<char>; boost::spirit::basic_hold_any<char>
  set this.field($0) IF T
  set this.op($1) IF T
  set this.val($2) IF T
  set this.opcode(cyclus::LT) IF $1 == "<"
  set this.opcode(cyclus::GT) IF !$1 == "<" & $1 == ">"
  set this.opcode(cyclus::LE) IF !$1 == "<" & $1 == "<=" & !$1 == ">"
  set this.opcode(cyclus::GE) IF !$1 == "<" & !$1 == "<=" & !$1 == ">" & $1 == ">="
  set this.opcode(cyclus::EQ) IF !$1 == "<" & !$1 == "<=" & $1 == "==" & !$1 == ">" & !$1 == ">="
  set this.opcode(cyclus::NE) IF !$1 == "<" & !$1 == "<=" & !$1 == "==" & !$1 == ">" & !$1 == ">="
  throw cyclus::ValueError() IF !$1 == "!=" & !$1 == "<" & !$1 == "<=" & !$1 == "==" & !$1 == ">" & !$1 == ">="
fn cyclus::CmpCond<bool> | bool *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(bool)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(bool)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & ($0-$1.val.cast(of(bool))) >= 0 | $1.opcode == cyclus::GT & ($0-$1.val.cast(of(bool))) > 0 | $1.opcode == cyclus::LE & !($0-$1.val.cast(of(bool))) > 0 | $1.opcode == cyclus::LT & !($0-$1.val.cast(of(bool))) >= 0
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<boost::uuids::uuid> | boost::uuids::uuid *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(boost::uuids::uuid)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(boost::uuids::uuid)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(boost::uuids::uuid))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(boost::uuids::uuid)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(boost::uuids::uuid)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(boost::uuids::uuid)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<cyclus::Blob> | cyclus::Blob *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(cyclus::Blob)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(cyclus::Blob)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(cyclus::Blob))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(cyclus::Blob)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(cyclus::Blob)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(cyclus::Blob)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<double> | double *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(double)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(double)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & ($0-$1.val.cast(of(double))) >= 0 | $1.opcode == cyclus::GT & ($0-$1.val.cast(of(double))) > 0 | $1.opcode == cyclus::LE & !($0-$1.val.cast(of(double))) > 0 | $1.opcode == cyclus::LT & !($0-$1.val.cast(of(double))) >= 0
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<float> | float *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(float)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(float)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & ($0-$1.val.cast(of(float))) >= 0 | $1.opcode == cyclus::GT & ($0-$1.val.cast(of(float))) > 0 | $1.opcode == cyclus::LE & !($0-$1.val.cast(of(float))) > 0 | $1.opcode == cyclus::LT & !($0-$1.val.cast(of(float))) >= 0
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<int> | int *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(int)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(int)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & ($0-$1.val.cast(of(int))) >= 0 | $1.opcode == cyclus::GT & ($0-$1.val.cast(of(int))) > 0 | $1.opcode == cyclus::LE & !($0-$1.val.cast(of(int))) > 0 | $1.opcode == cyclus::LT & !($0-$1.val.cast(of(int))) >= 0
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::basic_string<char>> | std::basic_string<char> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::basic_string<char>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::basic_string<char>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::basic_string<char>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::basic_string<char>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::basic_string<char>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::basic_string<char>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::list<bool>> | std::list<bool> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::list<bool>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::list<bool>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::list<bool>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::list<bool>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::list<bool>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::list<bool>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::list<boost::uuids::uuid>> | std::list<boost::uuids::uuid> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::list<boost::uuids::uuid>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::list<boost::uuids::uuid>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::list<boost::uuids::uuid>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::list<boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::list<boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::list<boost::uuids::uuid>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::list<cyclus::Blob>> | std::list<cyclus::Blob> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::list<cyclus::Blob>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::list<cyclus::Blob>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::list<cyclus::Blob>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::list<cyclus::Blob>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::list<cyclus::Blob>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::list<cyclus::Blob>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::list<double>> | std::list<double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::list<double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::list<double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::list<double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::list<double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::list<double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::list<double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::list<float>> | std::list<float> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::list<float>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::list<float>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::list<float>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::list<float>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::list<float>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::list<float>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::list<int>> | std::list<int> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::list<int>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::list<int>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::list<int>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::list<int>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::list<int>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::list<int>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::list<std::basic_string<char>>> | std::list<std::basic_string<char>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::list<std::basic_string<char>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::list<std::basic_string<char>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::list<std::basic_string<char>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::list<std::basic_string<char>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::list<std::basic_string<char>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::list<std::basic_string<char>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::list<std::pair<int, int>>> | std::list<std::pair<int, int>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::list<std::pair<int, int>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::list<std::pair<int, int>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::list<std::pair<int, int>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::list<std::pair<int, int>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::list<std::pair<int, int>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::list<std::pair<int, int>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<int, bool>> | std::map<int, bool> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<int, bool>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<int, bool>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<int, bool>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<int, bool>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<int, bool>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<int, bool>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<int, boost::uuids::uuid>> | std::map<int, boost::uuids::uuid> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<int, boost::uuids::uuid>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<int, boost::uuids::uuid>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<int, boost::uuids::uuid>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<int, boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<int, boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<int, boost::uuids::uuid>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<int, cyclus::Blob>> | std::map<int, cyclus::Blob> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<int, cyclus::Blob>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<int, cyclus::Blob>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<int, cyclus::Blob>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<int, cyclus::Blob>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<int, cyclus::Blob>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<int, cyclus::Blob>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<int, double>> | std::map<int, double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<int, double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<int, double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<int, double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<int, double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<int, double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<int, double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<int, float>> | std::map<int, float> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<int, float>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<int, float>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<int, float>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<int, float>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<int, float>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<int, float>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<int, int>> | std::map<int, int> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<int, int>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<int, int>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<int, int>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<int, int>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<int, int>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<int, int>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<int, std::basic_string<char>>> | std::map<int, std::basic_string<char>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<int, std::basic_string<char>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<int, std::basic_string<char>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<int, std::basic_string<char>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<int, std::basic_string<char>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<int, std::basic_string<char>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<int, std::basic_string<char>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<int, std::map<std::basic_string<char>, double>>> | std::map<int, std::map<std::basic_string<char>, double>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<int, std::map<std::basic_string<char>, double>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<int, std::map<std::basic_string<char>, double>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<int, std::map<std::basic_string<char>, double>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<int, std::map<std::basic_string<char>, double>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<int, std::map<std::basic_string<char>, double>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<int, std::map<std::basic_string<char>, double>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, bool>> | std::map<std::basic_string<char>, bool> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, bool>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, bool>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, bool>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, bool>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, bool>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, bool>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, boost::uuids::uuid>> | std::map<std::basic_string<char>, boost::uuids::uuid> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, boost::uuids::uuid>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, boost::uuids::uuid>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, boost::uuids::uuid>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, boost::uuids::uuid>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, cyclus::Blob>> | std::map<std::basic_string<char>, cyclus::Blob> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, cyclus::Blob>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, cyclus::Blob>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, cyclus::Blob>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, cyclus::Blob>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, cyclus::Blob>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, cyclus::Blob>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, double>> | std::map<std::basic_string<char>, double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, float>> | std::map<std::basic_string<char>, float> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, float>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, float>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, float>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, float>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, float>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, float>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, int>> | std::map<std::basic_string<char>, int> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, int>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, int>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, int>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, int>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, int>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, int>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, std::basic_string<char>>> | std::map<std::basic_string<char>, std::basic_string<char>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, std::basic_string<char>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, std::basic_string<char>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::basic_string<char>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, std::basic_string<char>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, std::basic_string<char>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::basic_string<char>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, std::map<int, double>>> | std::map<std::basic_string<char>, std::map<int, double>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, std::map<int, double>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, std::map<int, double>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::map<int, double>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, std::map<int, double>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, std::map<int, double>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::map<int, double>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>> | std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>> | std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>> | std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>> | std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, std::vector<double>>> | std::map<std::basic_string<char>, std::vector<double>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, std::vector<double>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, std::vector<double>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::vector<double>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, std::vector<double>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, std::vector<double>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::vector<double>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>> | std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::pair<int, std::basic_string<char>>, double>> | std::map<std::pair<int, std::basic_string<char>>, double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::pair<int, std::basic_string<char>>, double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::pair<int, std::basic_string<char>>, double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::pair<int, std::basic_string<char>>, double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::pair<int, std::basic_string<char>>, double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::pair<int, std::basic_string<char>>, double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::pair<int, std::basic_string<char>>, double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>> | std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<double, double>> | std::pair<double, double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<double, double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<double, double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<double, double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<double, double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<double, double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<double, double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<double, std::map<int, double>>> | std::pair<double, std::map<int, double>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<double, std::map<int, double>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<double, std::map<int, double>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<double, std::map<int, double>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<double, std::map<int, double>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<double, std::map<int, double>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<double, std::map<int, double>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<int, bool>> | std::pair<int, bool> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<int, bool>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<int, bool>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<int, bool>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<int, bool>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<int, bool>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<int, bool>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<int, boost::uuids::uuid>> | std::pair<int, boost::uuids::uuid> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<int, boost::uuids::uuid>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<int, boost::uuids::uuid>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<int, boost::uuids::uuid>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<int, boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<int, boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<int, boost::uuids::uuid>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<int, cyclus::Blob>> | std::pair<int, cyclus::Blob> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<int, cyclus::Blob>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<int, cyclus::Blob>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<int, cyclus::Blob>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<int, cyclus::Blob>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<int, cyclus::Blob>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<int, cyclus::Blob>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<int, double>> | std::pair<int, double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<int, double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<int, double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<int, double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<int, double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<int, double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<int, double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<int, float>> | std::pair<int, float> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<int, float>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<int, float>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<int, float>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<int, float>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<int, float>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<int, float>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<int, int>> | std::pair<int, int> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<int, int>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<int, int>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<int, int>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<int, int>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<int, int>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<int, int>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<int, std::basic_string<char>>> | std::pair<int, std::basic_string<char>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<int, std::basic_string<char>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<int, std::basic_string<char>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<int, std::basic_string<char>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<int, std::basic_string<char>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<int, std::basic_string<char>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<int, std::basic_string<char>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>> | std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::basic_string<char>, bool>> | std::pair<std::basic_string<char>, bool> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::basic_string<char>, bool>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::basic_string<char>, bool>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, bool>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::basic_string<char>, bool>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::basic_string<char>, bool>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, bool>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::basic_string<char>, boost::uuids::uuid>> | std::pair<std::basic_string<char>, boost::uuids::uuid> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::basic_string<char>, boost::uuids::uuid>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::basic_string<char>, boost::uuids::uuid>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, boost::uuids::uuid>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::basic_string<char>, boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::basic_string<char>, boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, boost::uuids::uuid>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::basic_string<char>, cyclus::Blob>> | std::pair<std::basic_string<char>, cyclus::Blob> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::basic_string<char>, cyclus::Blob>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::basic_string<char>, cyclus::Blob>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, cyclus::Blob>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::basic_string<char>, cyclus::Blob>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::basic_string<char>, cyclus::Blob>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, cyclus::Blob>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::basic_string<char>, double>> | std::pair<std::basic_string<char>, double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::basic_string<char>, double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::basic_string<char>, double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::basic_string<char>, double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::basic_string<char>, double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::basic_string<char>, float>> | std::pair<std::basic_string<char>, float> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::basic_string<char>, float>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::basic_string<char>, float>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, float>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::basic_string<char>, float>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::basic_string<char>, float>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, float>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::basic_string<char>, int>> | std::pair<std::basic_string<char>, int> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::basic_string<char>, int>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::basic_string<char>, int>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, int>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::basic_string<char>, int>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::basic_string<char>, int>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, int>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::basic_string<char>, std::basic_string<char>>> | std::pair<std::basic_string<char>, std::basic_string<char>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::basic_string<char>, std::basic_string<char>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::basic_string<char>, std::basic_string<char>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, std::basic_string<char>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::basic_string<char>, std::basic_string<char>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::basic_string<char>, std::basic_string<char>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, std::basic_string<char>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::basic_string<char>, std::vector<double>>> | std::pair<std::basic_string<char>, std::vector<double>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::basic_string<char>, std::vector<double>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::basic_string<char>, std::vector<double>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, std::vector<double>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::basic_string<char>, std::vector<double>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::basic_string<char>, std::vector<double>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::basic_string<char>, std::vector<double>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>> | std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::set<boost::uuids::uuid>> | std::set<boost::uuids::uuid> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::set<boost::uuids::uuid>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::set<boost::uuids::uuid>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::set<boost::uuids::uuid>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::set<boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::set<boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::set<boost::uuids::uuid>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::set<cyclus::Blob>> | std::set<cyclus::Blob> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::set<cyclus::Blob>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::set<cyclus::Blob>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::set<cyclus::Blob>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::set<cyclus::Blob>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::set<cyclus::Blob>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::set<cyclus::Blob>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::set<double>> | std::set<double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::set<double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::set<double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::set<double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::set<double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::set<double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::set<double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::set<float>> | std::set<float> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::set<float>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::set<float>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::set<float>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::set<float>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::set<float>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::set<float>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::set<int>> | std::set<int> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::set<int>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::set<int>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::set<int>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::set<int>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::set<int>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::set<int>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::set<std::basic_string<char>>> | std::set<std::basic_string<char>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::set<std::basic_string<char>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::set<std::basic_string<char>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::set<std::basic_string<char>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::set<std::basic_string<char>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::set<std::basic_string<char>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::set<std::basic_string<char>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::vector<boost::uuids::uuid>> | std::vector<boost::uuids::uuid> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::vector<boost::uuids::uuid>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::vector<boost::uuids::uuid>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::vector<boost::uuids::uuid>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::vector<boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::vector<boost::uuids::uuid>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::vector<boost::uuids::uuid>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::vector<cyclus::Blob>> | std::vector<cyclus::Blob> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::vector<cyclus::Blob>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::vector<cyclus::Blob>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::vector<cyclus::Blob>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::vector<cyclus::Blob>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::vector<cyclus::Blob>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::vector<cyclus::Blob>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::vector<double>> | std::vector<double> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::vector<double>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::vector<double>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::vector<double>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::vector<double>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::vector<double>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::vector<double>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::vector<float>> | std::vector<float> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::vector<float>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::vector<float>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::vector<float>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::vector<float>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::vector<float>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::vector<float>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::vector<int>> | std::vector<int> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::vector<int>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::vector<int>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::vector<int>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::vector<int>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::vector<int>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::vector<int>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::vector<std::basic_string<char>>> | std::vector<std::basic_string<char>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::vector<std::basic_string<char>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::vector<std::basic_string<char>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::vector<std::basic_string<char>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::vector<std::basic_string<char>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::vector<std::basic_string<char>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::vector<std::basic_string<char>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>> | std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CmpCond<std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>> | std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>> *; cyclus::Cond *
  ret return(true) IF !$0 == $1.val.cast(of(std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>)) & $1.opcode == cyclus::NE | $0 == $1.val.cast(of(std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>)) & $1.opcode == cyclus::EQ | $1.opcode == cyclus::GE & !lt($0,$1.val.cast(of(std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>))) | $1.opcode == cyclus::GT & lt($1.val.cast(of(std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>)),$0) | $1.opcode == cyclus::LE & !lt($1.val.cast(of(std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>)),$0) | $1.opcode == cyclus::LT & lt($0,$1.val.cast(of(std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>)))
  ret return(<uninit>) IF !$1.opcode == cyclus::EQ & !$1.opcode == cyclus::GE & !$1.opcode == cyclus::GT & !$1.opcode == cyclus::LE & !$1.opcode == cyclus::LT & !$1.opcode == cyclus::NE
fn cyclus::CondInjector::CondInjector
  set this.b_($0) IF T
  set this.to_inject_($1) IF T
fn cyclus::CondInjector::Query
  ret return(this.b_.Query($0,this.to_inject_)) IF !$1
  [for this.to_inject_] add @vector<Cond>.add(elem(this.to_inject_)) IF $1
  ret return(this.b_.Query($0,fold(this.to_inject_; @vector<Cond>{$1}; ~'))) IF $1
fn cyclus::CondInjector::ColumnTypes
  ret return(this.b_.ColumnTypes($0)) IF T
fn cyclus::CondInjector::Schema
  ret return(this.b_.Schema($0)) IF T
fn cyclus::CondInjector::Tables
  ret return(this.b_.Tables()) IF T
fn cyclus::PrefixInjector::PrefixInjector
  set this.b_($0) IF T
  set this.prefix_($1) IF T
fn cyclus::PrefixInjector::Query
  ret return(this.b_.Query(this.prefix_ ++ $0,$1)) IF T
fn cyclus::PrefixInjector::ColumnTypes
  ret return(this.b_.ColumnTypes($0)) IF T
fn cyclus::PrefixInjector::Schema
  ret return(this.b_.Schema($0)) IF T
fn cyclus::PrefixInjector::Tables
  ret return(this.b_.Tables()) IF T
fn cyclus::QueryResult::Reset
  del this.fields.clear() IF T
  del this.types.clear() IF T
  del this.rows.clear() IF T
fn cyclus::QueryResult::GetVal<bool> | std::basic_string<char>; int
  default 1 = 0
  throw cyclus::StateError() IF empty(this.rows)
  throw cyclus::KeyError() IF !empty(this.rows) & !has(this.fields,$0) | ($1-size(this.rows)) >= 0 & !empty(this.rows)
  ret return(this.rows[$1][idx(this.fields)].cast(of(bool))) IF !($1-size(this.rows)) >= 0 & !empty(this.rows) & has(this.fields,$0)
fn cyclus::Blob::Blob | 
  set this.str_("") IF T
fn cyclus::Blob::Blob | std::basic_string<char>
  set this.str_($0) IF T
fn cyclus::Blob::str
  ret return(this.str_) IF T
fn cyclus::Blob::operator<<
  ret return((this.str_ << this.str_)) IF T
  set $0(this.str_) IF T
fn cyclus::Blob::operator<
  ret return(true) IF lt(this.str_,$0.str_)
fn cyclus::Blob::operator>
  ret return(true) IF !$0.str_ == this.str_ & !lt(this.str_,$0.str_)
fn cyclus::Blob::operator<=
  ret return(true) IF $0.str_ == this.str_ | lt(this.str_,$0.str_)
fn cyclus::Blob::operator>=
  ret return(true) IF !lt(this.str_,$0.str_)
fn cyclus::Blob::operator==
  ret return(true) IF $0.str_ == this.str_
fn cyclus::Blob::operator!=
  ret return(true) IF !$0.str_ == this.str_
fn cyclus::ColumnInfo::ColumnInfo | 
  set this.table("") IF T
  set this.col("") IF T
  set this.shape(vector{}) IF T
fn cyclus::ColumnInfo::ColumnInfo | std::basic_string<char>; std::basic_string<char>; int; cyclus::DbTypes; std::vector<int>
  set this.table($0) IF T
  set this.col($1) IF T
  set this.index($2) IF T
  set this.dbtype($3) IF T
  set this.shape($4) IF T
fn cyclus::Sha1::Sha1
  set this.hash_(sha1{}) IF T
fn cyclus::Sha1::Clear
  call this.hash_.boost::uuids::detail::sha1::reset() IF T
fn cyclus::Sha1::digest
  [for range(5)] put @array<unsigned int, 5>.put(idx(range(5)), <uninit>[idx(range(5))]) IF T
  ret return(@array<unsigned int, 5>) IF T
fn cyclus::Sha1::Update | const std::basic_string<char> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0, size($0)) IF T
fn cyclus::Sha1::Update | const cyclus::Blob &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.str_, size($0.str_)) IF T
fn cyclus::Sha1::Update | const std::vector<int> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0[0], (size($0)*sizeof(int))) IF T
fn cyclus::Sha1::Update | const std::vector<float> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0[0], (size($0)*sizeof(float))) IF T
fn cyclus::Sha1::Update | const std::vector<double> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0[0], (size($0)*sizeof(double))) IF T
fn cyclus::Sha1::Update | const std::vector<std::basic_string<char>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), size(elem($0))) IF T
fn cyclus::Sha1::Update | const std::vector<cyclus::Blob> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).str_, size(elem($0).str_)) IF T
fn cyclus::Sha1::Update | const std::vector<boost::uuids::uuid> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), 16) IF T
fn cyclus::Sha1::Update | const std::set<int> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), sizeof(int)) IF T
fn cyclus::Sha1::Update | const std::set<bool> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), sizeof(bool)) IF T
fn cyclus::Sha1::Update | const std::set<double> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::set<float> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), sizeof(float)) IF T
fn cyclus::Sha1::Update | const std::set<cyclus::Blob> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).str_, size(elem($0).str_)) IF T
fn cyclus::Sha1::Update | const std::set<boost::uuids::uuid> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), 16) IF T
fn cyclus::Sha1::Update | const std::set<std::basic_string<char>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), size(elem($0))) IF T
fn cyclus::Sha1::Update | const std::list<int> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), sizeof(int)) IF T
fn cyclus::Sha1::Update | const std::list<bool> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), sizeof(bool)) IF T
fn cyclus::Sha1::Update | const std::list<double> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::list<float> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), sizeof(float)) IF T
fn cyclus::Sha1::Update | const std::list<std::basic_string<char>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), size(elem($0))) IF T
fn cyclus::Sha1::Update | const std::list<cyclus::Blob> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).str_, size(elem($0).str_)) IF T
fn cyclus::Sha1::Update | const std::list<boost::uuids::uuid> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0), 16) IF T
fn cyclus::Sha1::Update | const std::pair<int, int> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.first, sizeof(int)) IF T
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.second, sizeof(int)) IF T
fn cyclus::Sha1::Update | const std::pair<int, std::basic_string<char>> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.first, sizeof(int)) IF T
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.second, size($0.second)) IF T
fn cyclus::Sha1::Update | const std::map<int, int> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(int)) IF T
fn cyclus::Sha1::Update | const std::map<int, bool> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(bool)) IF T
fn cyclus::Sha1::Update | const std::map<int, double> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::map<int, float> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(float)) IF T
fn cyclus::Sha1::Update | const std::map<int, cyclus::Blob> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second.str_, size(elem($0).second.str_)) IF T
fn cyclus::Sha1::Update | const std::map<int, boost::uuids::uuid> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, 16) IF T
fn cyclus::Sha1::Update | const std::map<int, std::basic_string<char>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, size(elem($0).second)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, int> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(int)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, double> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, float> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(float)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, bool> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(bool)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, cyclus::Blob> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second.str_, size(elem($0).second.str_)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, boost::uuids::uuid> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, 16) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, std::basic_string<char>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, size(elem($0).second)) IF T
fn cyclus::Sha1::Update | const std::map<std::pair<int, std::basic_string<char>>, double> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first.first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first.second, size(elem($0).first.second)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first.first, size(elem($0).first.first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first.second, size(elem($0).first.second)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(int)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, std::vector<double>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second[0], (size(elem($0).second)*sizeof(double))) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, std::map<int, double>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).first, sizeof(int)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::map<int, std::map<std::basic_string<char>, double>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).first, size(elem(elem($0).second).first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::pair<double, std::map<int, double>> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.first, sizeof(double)) IF T
  [for $0.second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0.second).first, sizeof(int)) IF T
  [for $0.second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0.second).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second.first, sizeof(double)) IF T
  [for $0] [for elem($0).second.second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second.second).first, sizeof(int)) IF T
  [for $0] [for elem($0).second.second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second.second).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.first, sizeof(int)) IF T
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.second.first, size($0.second.first)) IF T
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.second.second, size($0.second.second)) IF T
fn cyclus::Sha1::Update | const std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second.first, size(elem($0).second.first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second.second, size(elem($0).second.second)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).first, sizeof(int)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).second.first, size(elem(elem($0).second).second.first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).second.second, size(elem(elem($0).second).second.second)) IF T
fn cyclus::Sha1::Update | const std::list<std::pair<int, int>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, sizeof(int)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second, sizeof(int)) IF T
fn cyclus::Sha1::Update | const std::pair<std::basic_string<char>, std::vector<double>> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.first, size($0.first)) IF T
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.second[0], (size($0.second)*sizeof(double))) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second.first, size(elem($0).second.first)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).second.second[0], (size(elem($0).second.second)*sizeof(double))) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).first, size(elem(elem($0).second).first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).second, sizeof(int)) IF T
fn cyclus::Sha1::Update | const std::pair<double, double> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.first, sizeof(double)) IF T
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>> &
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.first.first, sizeof(double)) IF T
  call this.hash_.boost::uuids::detail::sha1::process_bytes($0.first.second, sizeof(double)) IF T
  [for $0.second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0.second).first, size(elem($0.second).first)) IF T
  [for $0.second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0.second).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first.first, sizeof(double)) IF T
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first.second, sizeof(double)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).first, size(elem(elem($0).second).first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).second, sizeof(double)) IF T
fn cyclus::Sha1::Update | const std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>> &
  [for $0] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem($0).first, size(elem($0).first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).first, size(elem(elem($0).second).first)) IF T
  [for $0] [for elem($0).second] call this.hash_.boost::uuids::detail::sha1::process_bytes(elem(elem($0).second).second, sizeof(double)) IF T
fn cyclus::CmpConds<bool> | bool *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<boost::uuids::uuid> | boost::uuids::uuid *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<cyclus::Blob> | cyclus::Blob *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<double> | double *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<float> | float *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<int> | int *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::basic_string<char>> | std::basic_string<char> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::list<bool>> | std::list<bool> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::list<boost::uuids::uuid>> | std::list<boost::uuids::uuid> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::list<cyclus::Blob>> | std::list<cyclus::Blob> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::list<double>> | std::list<double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::list<float>> | std::list<float> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::list<int>> | std::list<int> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::list<std::basic_string<char>>> | std::list<std::basic_string<char>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::list<std::pair<int, int>>> | std::list<std::pair<int, int>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<int, bool>> | std::map<int, bool> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<int, boost::uuids::uuid>> | std::map<int, boost::uuids::uuid> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<int, cyclus::Blob>> | std::map<int, cyclus::Blob> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<int, double>> | std::map<int, double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<int, float>> | std::map<int, float> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<int, int>> | std::map<int, int> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<int, std::basic_string<char>>> | std::map<int, std::basic_string<char>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<int, std::map<std::basic_string<char>, double>>> | std::map<int, std::map<std::basic_string<char>, double>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, bool>> | std::map<std::basic_string<char>, bool> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, boost::uuids::uuid>> | std::map<std::basic_string<char>, boost::uuids::uuid> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, cyclus::Blob>> | std::map<std::basic_string<char>, cyclus::Blob> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, double>> | std::map<std::basic_string<char>, double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, float>> | std::map<std::basic_string<char>, float> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, int>> | std::map<std::basic_string<char>, int> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, std::basic_string<char>>> | std::map<std::basic_string<char>, std::basic_string<char>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, std::map<int, double>>> | std::map<std::basic_string<char>, std::map<int, double>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>> | std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>> | std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>> | std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>> | std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, std::vector<double>>> | std::map<std::basic_string<char>, std::vector<double>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>> | std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::pair<int, std::basic_string<char>>, double>> | std::map<std::pair<int, std::basic_string<char>>, double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>> | std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<double, double>> | std::pair<double, double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<double, std::map<int, double>>> | std::pair<double, std::map<int, double>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<int, bool>> | std::pair<int, bool> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<int, boost::uuids::uuid>> | std::pair<int, boost::uuids::uuid> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<int, cyclus::Blob>> | std::pair<int, cyclus::Blob> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<int, double>> | std::pair<int, double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<int, float>> | std::pair<int, float> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<int, int>> | std::pair<int, int> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<int, std::basic_string<char>>> | std::pair<int, std::basic_string<char>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>> | std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::basic_string<char>, bool>> | std::pair<std::basic_string<char>, bool> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::basic_string<char>, boost::uuids::uuid>> | std::pair<std::basic_string<char>, boost::uuids::uuid> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::basic_string<char>, cyclus::Blob>> | std::pair<std::basic_string<char>, cyclus::Blob> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::basic_string<char>, double>> | std::pair<std::basic_string<char>, double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::basic_string<char>, float>> | std::pair<std::basic_string<char>, float> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::basic_string<char>, int>> | std::pair<std::basic_string<char>, int> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::basic_string<char>, std::basic_string<char>>> | std::pair<std::basic_string<char>, std::basic_string<char>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::basic_string<char>, std::vector<double>>> | std::pair<std::basic_string<char>, std::vector<double>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>> | std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::set<boost::uuids::uuid>> | std::set<boost::uuids::uuid> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::set<cyclus::Blob>> | std::set<cyclus::Blob> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::set<double>> | std::set<double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::set<float>> | std::set<float> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::set<int>> | std::set<int> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::set<std::basic_string<char>>> | std::set<std::basic_string<char>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::vector<boost::uuids::uuid>> | std::vector<boost::uuids::uuid> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::vector<cyclus::Blob>> | std::vector<cyclus::Blob> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::vector<double>> | std::vector<double> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::vector<float>> | std::vector<float> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::vector<int>> | std::vector<int> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::vector<std::basic_string<char>>> | std::vector<std::basic_string<char>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>> | std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
fn cyclus::CmpConds<std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>> | std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>> *; std::vector<cyclus::Cond *> *
  stop: CmpCond
  ret return(true) IF !ANY($1: !cyclus::CmpCond($0,elem($1)))
