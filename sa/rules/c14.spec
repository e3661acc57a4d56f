fn cyclus::Recorder::Recorder | 
  set this.data_(vector{}) IF T
  set this.index_(0) IF T
  set this.backs_(list{}) IF T
  set this.inject_sim_id_(true) IF T
  set this.uuid_(random_generator_pure{}.operator()()) IF T
  [for vector{}] delete delete(elem(vector{})) IF elem(vector{})
  del this.data_.clear() IF T
  [for times(cyclus::kDefaultDumpCount)] call new Datum{this,""}.cyclus::Datum::AddVal("SimId", random_generator_pure{}.operator()()) IF T
  [for times(cyclus::kDefaultDumpCount)] add this.data_.add(new Datum{this,""}) IF T
  set this.dump_count_(cyclus::kDefaultDumpCount) IF T
  seq 6<8
fn cyclus::Recorder::Recorder | bool
  set this.data_(vector{}) IF T
  set this.index_(0) IF T
  set this.backs_(list{}) IF T
  set this.inject_sim_id_($0) IF T
  set this.uuid_(random_generator_pure{}.operator()()) IF T
  [for vector{}] delete delete(elem(vector{})) IF elem(vector{})
  del this.data_.clear() IF T
  [for times(cyclus::kDefaultDumpCount)] call new Datum{this,""}.cyclus::Datum::AddVal("SimId", random_generator_pure{}.operator()()) IF $0
  [for times(cyclus::kDefaultDumpCount)] add this.data_.add(new Datum{this,""}) IF T
  set this.dump_count_(cyclus::kDefaultDumpCount) IF T
  seq 6<8
fn cyclus::Recorder::Recorder | unsigned int
  set this.data_(vector{}) IF T
  set this.index_(0) IF T
  set this.backs_(list{}) IF T
  set this.inject_sim_id_(true) IF T
  set this.uuid_(random_generator_pure{}.operator()()) IF T
  [for vector{}] delete delete(elem(vector{})) IF elem(vector{})
  del this.data_.clear() IF T
  [for times($0)] call new Datum{this,""}.cyclus::Datum::AddVal("SimId", random_generator_pure{}.operator()()) IF T
  [for times($0)] add this.data_.add(new Datum{this,""}) IF T
  set this.dump_count_($0) IF T
  seq 6<8
fn cyclus::Recorder::Recorder | boost::uuids::uuid
  set this.data_(vector{}) IF T
  set this.index_(0) IF T
  set this.backs_(list{}) IF T
  set this.uuid_($0) IF T
  set this.inject_sim_id_(true) IF T
  [for vector{}] delete delete(elem(vector{})) IF elem(vector{})
  del this.data_.clear() IF T
  [for times(cyclus::kDefaultDumpCount)] call new Datum{this,""}.cyclus::Datum::AddVal("SimId", $0) IF T
  [for times(cyclus::kDefaultDumpCount)] add this.data_.add(new Datum{this,""}) IF T
  set this.dump_count_(cyclus::kDefaultDumpCount) IF T
  seq 6<8
fn cyclus::Recorder::~Recorder
  set this.index_(0) IF !this.index_ == 0
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Notify(take(this.data_,this.index_)) IF !this.index_ == 0
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Flush() IF !this.index_ == 0
  [for this.data_] delete delete(elem(this.data_)) IF elem(this.data_)
  seq 0<1 0<2 1<2
fn cyclus::Recorder::dump_count
  ret return(this.dump_count_) IF T
fn cyclus::Recorder::sim_id
  ret return(this.uuid_) IF T
fn cyclus::Recorder::set_dump_count
  set this.index_(0) IF !this.index_ == 0
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Notify(take(this.data_,this.index_)) IF !this.index_ == 0
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Flush() IF !this.index_ == 0
  [for this.data_] delete delete(elem(this.data_)) IF elem(this.data_)
  del this.data_.clear() IF T
  [for times($0)] call new Datum{this,""}.cyclus::Datum::AddVal("SimId", this.uuid_) IF this.inject_sim_id_
  [for times($0)] add this.data_.add(new Datum{this,""}) IF T
  set this.dump_count_($0) IF T
  seq 0<1 0<2 1<2 1<4 1<6 1<7 2<4 2<6 2<7 4<6
fn cyclus::Recorder::NewDatum
  set this.data_[this.index_].title_($0) IF T
  call this.data_[this.index_].vals_.std::vector::resize(1) IF this.inject_sim_id_
  call this.data_[this.index_].shapes_.std::vector::resize(1) IF this.inject_sim_id_
  call this.data_[this.index_].fields_.std::vector::resize(1) IF this.inject_sim_id_
  call this.data_[this.index_].vals_.std::vector::resize(0) IF !this.inject_sim_id_
  call this.data_[this.index_].shapes_.std::vector::resize(0) IF !this.inject_sim_id_
  call this.data_[this.index_].fields_.std::vector::resize(0) IF !this.inject_sim_id_
  set this.index_((this.index_+1)) IF T
  ret return(this.data_[this.index_]) IF T
fn cyclus::Recorder::AddDatum
  set this.index_(0) IF !(size(this.data_)-this.index_) >= 1
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Notify(this.data_) IF !(size(this.data_)-this.index_) >= 1
  seq 0<1
fn cyclus::Recorder::Flush
  set this.index_(0) IF !this.index_ == 0
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Notify(take(this.data_,this.index_)) IF !this.index_ == 0
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Flush() IF !this.index_ == 0
  seq 0<1 0<2 1<2
fn cyclus::Recorder::NotifyBackends
  set this.index_(0) IF T
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Notify(this.data_) IF T
  seq 0<1
fn cyclus::Recorder::RegisterBackend
  add this.backs_.add($0) IF T
fn cyclus::Recorder::Close
  set this.index_(0) IF !this.index_ == 0
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Notify(take(this.data_,this.index_)) IF !this.index_ == 0
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Flush() IF !this.index_ == 0
  del this.backs_.clear() IF T
  seq 0<1 0<2 1<2 1<3 2<3
fn cyclus::Recorder::inject_sim_id | 
  ret return(this.inject_sim_id_) IF T
fn cyclus::Recorder::inject_sim_id | bool
  set this.index_(0) IF !$0 & !this.index_ == 0 & this.inject_sim_id_ | $0 & !this.index_ == 0 & !this.inject_sim_id_
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Notify(take(this.data_,this.index_)) IF !$0 & !this.index_ == 0 & this.inject_sim_id_ | $0 & !this.index_ == 0 & !this.inject_sim_id_
  [for this.backs_] call elem(this.backs_).cyclus::RecBackend::Flush() IF !$0 & !this.index_ == 0 & this.inject_sim_id_ | $0 & !this.index_ == 0 & !this.inject_sim_id_
  set this.inject_sim_id_($0) IF !$0 & this.inject_sim_id_ | $0 & !this.inject_sim_id_
  [for this.data_] delete delete(elem(this.data_)) IF !$0 & elem(this.data_) & this.inject_sim_id_ | $0 & elem(this.data_) & !this.inject_sim_id_
  del this.data_.clear() IF !$0 & this.inject_sim_id_ | $0 & !this.inject_sim_id_
  [for times(this.dump_count_)] call new Datum{this,""}.cyclus::Datum::AddVal("SimId", this.uuid_) IF $0 & !this.inject_sim_id_
  [for times(this.dump_count_)] add this.data_.add(new Datum{this,""}) IF !$0 & this.inject_sim_id_ | $0 & !this.inject_sim_id_
  seq 0<1 0<2 1<2 1<3 1<5 1<7 2<3 2<5 2<7 5<7
fn cyclus::RecBackend::Deleter::Add
  add this.backs_.add($0) IF T
fn cyclus::RecBackend::Deleter::~Deleter
  [for this.backs_] delete delete(elem(this.backs_)) IF elem(this.backs_)
init cyclus::kDefaultDumpCount = 10000
