fn cyclus::Datum::AddValBase
  default 2 = NULL
  add this.vals_.add(pair($0,$1)) IF T
  add this.shapes_.add(vector{}) IF !$2
  add this.shapes_.add($2) IF $2
  ret return(this) IF T
fn cyclus::Datum::AddVal | const char *; boost::spirit::basic_hold_any<char>; std::vector<int> *
  default 2 = NULL
  add this.fields_.add($0) IF T
  add this.vals_.add(pair($0,$1)) IF T
  add this.shapes_.add(vector{}) IF !$2
  add this.shapes_.add($2) IF $2
  ret return(this) IF T
fn cyclus::Datum::AddVal | std::basic_string<char>; boost::spirit::basic_hold_any<char>; std::vector<int> *
  default 2 = NULL
  add this.fields_.add($0) IF T
  add this.vals_.add(pair($0,$1)) IF T
  add this.shapes_.add(vector{}) IF !$2
  add this.shapes_.add($2) IF $2
  ret return(this) IF T
fn cyclus::Datum::Record
  call this.manager_.cyclus::Recorder::AddDatum(this) IF T
fn cyclus::Datum::Datum
  set this.manager_($0) IF T
  set this.title_($1) IF T
  set this.vals_(vector{}) IF T
  set this.shapes_(vector{}) IF T
  set this.fields_(vector{}) IF T
fn cyclus::Datum::~Datum
fn cyclus::Datum::title
  ret return(this.title_) IF T
fn cyclus::Datum::vals
  ret return(this.vals_) IF T
fn cyclus::Datum::shapes
  ret return(this.shapes_) IF T
fn cyclus::Datum::fields
  ret return(this.fields_) IF T
fn cyclus::Datum::operator new
  ret return(operator new($0)) IF !$0 == sizeof(cyclus::Datum)
  [for while] ret return(boost::singleton_pool::malloc()) IF $0 == sizeof(cyclus::Datum) & boost::singleton_pool::malloc()
  [for while] throw std::bad_alloc() IF $0 == sizeof(cyclus::Datum) & !boost::singleton_pool::malloc() & !std::set_new_handler(NULL)
  leave boost::singleton_pool::malloc()
fn cyclus::Datum::operator delete
fn cyclus::DbInit::DbInit | cyclus::Agent *
  set this.full_prefix_(true) IF T
  set this.m_($0) IF T
fn cyclus::DbInit::DbInit | cyclus::Agent *; bool
  set this.full_prefix_(false) IF T
  set this.m_($0) IF T
fn cyclus::DbInit::NewDatum
  call AgentSpec{this.m_.spec_}.cyclus::AgentSpec::Sanitize() IF this.full_prefix_
  call this.m_.ctx_.rec_.NewDatum("AgentState" ++ AgentSpec{this.m_.spec_}.Sanitize() ++ $0).cyclus::Datum::AddVal("AgentId", this.m_.id_) IF this.full_prefix_
  call this.m_.ctx_.rec_.NewDatum("AgentState" ++ $0).cyclus::Datum::AddVal("AgentId", this.m_.id_) IF !this.full_prefix_
  call this.m_.ctx_.rec_.NewDatum("AgentState" ++ AgentSpec{this.m_.spec_}.Sanitize() ++ $0).cyclus::Datum::AddVal("SimTime", this.m_.ctx_.ti_.time_) IF this.full_prefix_
  call this.m_.ctx_.rec_.NewDatum("AgentState" ++ $0).cyclus::Datum::AddVal("SimTime", this.m_.ctx_.ti_.time_) IF !this.full_prefix_
  ret return(this.m_.ctx_.rec_.NewDatum("AgentState" ++ AgentSpec{this.m_.spec_}.Sanitize() ++ $0)) IF this.full_prefix_
  ret return(this.m_.ctx_.rec_.NewDatum("AgentState" ++ $0)) IF !this.full_prefix_
