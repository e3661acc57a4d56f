fn cyclus::Warn<cyclus::DEPRECATION_WARNING> | const std::basic_string<char> &
  throw cyclus::Error() IF cyclus::warn_as_error
  put cyclus::warn_count.put(7, (cyclus::warn_count[7]+1)) IF !cyclus::warn_as_error
fn cyclus::Warn<cyclus::EXPERIMENTAL_WARNING> | const std::basic_string<char> &
  throw cyclus::Error() IF cyclus::warn_as_error
  put cyclus::warn_count.put(9, (cyclus::warn_count[9]+1)) IF !cyclus::warn_as_error
fn cyclus::Warn<cyclus::IO_WARNING> | const std::basic_string<char> &
  throw cyclus::Error() IF cyclus::warn_as_error
  put cyclus::warn_count.put(4, (cyclus::warn_count[4]+1)) IF !cyclus::warn_as_error
fn cyclus::Warn<cyclus::VALIDATION_WARNING> | const std::basic_string<char> &
  throw cyclus::Error() IF cyclus::warn_as_error
  put cyclus::warn_count.put(6, (cyclus::warn_count[6]+1)) IF !cyclus::warn_as_error
fn cyclus::Warn<cyclus::VALUE_WARNING> | const std::basic_string<char> &
  throw cyclus::Error() IF cyclus::warn_as_error
  put cyclus::warn_count.put(1, (cyclus::warn_count[1]+1)) IF !cyclus::warn_as_error
fn cyclus::Error::Error
  set this.msg_($0) IF T
fn cyclus::Error::what
  ret return(this.msg_) IF T
fn cyclus::Error::msg | const
  ret return(this.msg_) IF T
fn cyclus::Error::msg | std::basic_string<char>
  set this.msg_($0) IF T
fn cyclus::Error::~Error
fn cyclus::ValueError::ValueError
  set this.msg_($0) IF T
fn cyclus::KeyError::KeyError
  set this.msg_($0) IF T
fn cyclus::StateError::StateError
  set this.msg_($0) IF T
fn cyclus::IOError::IOError
  set this.msg_($0) IF T
fn cyclus::CastError::CastError
  set this.msg_($0) IF T
fn cyclus::ValidationError::ValidationError
  set this.msg_($0) IF T
fn cyclus::DepricationError::DepricationError
  set this.msg_($0) IF T
fn cyclus::Logger::Initialize
  put cyclus::Logger::string_to_level.put("LEV_ERROR", cyclus::LEV_ERROR) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_ERROR".substr(4))),'32'} ++ "LEV_ERROR".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_WARN", cyclus::LEV_WARN) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_WARN".substr(4))),'32'} ++ "LEV_WARN".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_INFO1", cyclus::LEV_INFO1) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_INFO1".substr(4))),'32'} ++ "LEV_INFO1".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_INFO2", cyclus::LEV_INFO2) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_INFO2".substr(4))),'32'} ++ "LEV_INFO2".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_INFO3", cyclus::LEV_INFO3) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_INFO3".substr(4))),'32'} ++ "LEV_INFO3".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_INFO4", cyclus::LEV_INFO4) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_INFO4".substr(4))),'32'} ++ "LEV_INFO4".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_INFO5", cyclus::LEV_INFO5) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_INFO5".substr(4))),'32'} ++ "LEV_INFO5".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_DEBUG1", cyclus::LEV_DEBUG1) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_DEBUG1".substr(4))),'32'} ++ "LEV_DEBUG1".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_DEBUG2", cyclus::LEV_DEBUG2) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_DEBUG2".substr(4))),'32'} ++ "LEV_DEBUG2".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_DEBUG3", cyclus::LEV_DEBUG3) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_DEBUG3".substr(4))),'32'} ++ "LEV_DEBUG3".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_DEBUG4", cyclus::LEV_DEBUG4) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_DEBUG4".substr(4))),'32'} ++ "LEV_DEBUG4".substr(4)) IF T
  put cyclus::Logger::string_to_level.put("LEV_DEBUG5", cyclus::LEV_DEBUG5) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size("LEV_DEBUG5".substr(4))),'32'} ++ "LEV_DEBUG5".substr(4)) IF T
fn cyclus::Logger::ToLogLevel
fn cyclus::Logger::ToString
  ret return(cyclus::Logger::level_to_string[$0]) IF !caught(...)
  ret return("BAD_LEVEL") IF caught(...)
fn cyclus::Logger::AddLevel
  put cyclus::Logger::string_to_level.put($1, $0) IF T
  add cyclus::Logger::level_to_string.add(basic_string{(cyclus::Logger::field_width_-size($1.substr(4))),'32'} ++ $1.substr(4)) IF T
fn cyclus::Logger::ReportLevel
  ret return(cyclus::Logger::report_level) IF T
fn cyclus::Logger::SetReportLevel
  set cyclus::Logger::report_level($0) IF T
fn cyclus::Logger::NoAgent
  ret return(cyclus::Logger::no_agent) IF T
fn cyclus::Logger::SetNoAgent
  set cyclus::Logger::no_agent($0) IF T
fn cyclus::Logger::NoMem
  ret return(cyclus::Logger::no_mem) IF T
fn cyclus::Logger::SetNoMem
  set cyclus::Logger::no_agent($0) IF T
fn cyclus::warn_prefixes
  put @map<Warnings, basic_string<char>>.put(cyclus::WARNING, "Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::VALUE_WARNING, "Value Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::KEY_WARNING, "Key Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::STATE_WARNING, "State Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::IO_WARNING, "I/O Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::CAST_WARNING, "Cast Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::VALIDATION_WARNING, "Validation Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::DEPRECATION_WARNING, "Deprecation Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::PENDING_DEPRECATION_WARNING, "Pending Deprecation Warning") IF T
  put @map<Warnings, basic_string<char>>.put(cyclus::EXPERIMENTAL_WARNING, "Experimental Warning") IF T
  ret return(@map<Warnings, basic_string<char>>) IF T
init cyclus::warn_as_error = false
init cyclus::warn_count = map{}
init cyclus::warn_limit = 42
init cyclus::warn_prefix = @map<Warnings, basic_string<char>>'
init cyclus::Logger::no_agent = false
init cyclus::Logger::no_mem = false
init cyclus::Logger::report_level = cyclus::LEV_ERROR
