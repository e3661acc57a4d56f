fn cyclus::Timer::RegisterTimeListener
  put this.tickers_.put($0.id(), $0) IF T
  call $0.cyclus::TimeListener::IsShim() IF T
  add this.py_tickers_.add($0) IF $0.IsShim()
  add this.cpp_tickers_.add($0) IF !$0.IsShim()
fn cyclus::Timer::UnregisterTimeListener
  del this.tickers_.erase($0.id()) IF has(this.tickers_,$0.id())
  call $0.cyclus::TimeListener::IsShim() IF T
  del this.py_tickers_.eraseall($0) IF $0.IsShim() & has(this.py_tickers_,$0)
  del this.cpp_tickers_.eraseall($0) IF !$0.IsShim() & has(this.cpp_tickers_,$0)
fn cyclus::Context::RegisterTimeListener
  call this.ti_.cyclus::Timer::RegisterTimeListener($0) IF T
fn cyclus::Context::UnregisterTimeListener
  call this.ti_.cyclus::Timer::UnregisterTimeListener($0) IF T
fn cyclus::Context::RegisterTrader
  add this.traders_.add($0) IF !has(this.traders_,$0)
fn cyclus::Context::UnregisterTrader
  del this.traders_.erase($0) IF has(this.traders_,$0)
fn cyclus::Context::RegisterAgent
  put this.n_prototypes_.put($0.prototype_, (this.n_prototypes_[$0.prototype_]+1)) IF T
  put this.n_specs_.put($0.spec_, (this.n_specs_[$0.spec_]+1)) IF T
fn cyclus::Context::UnregisterAgent
  put this.n_prototypes_.put($0.prototype_, (this.n_prototypes_[$0.prototype_]-1)) IF T
  put this.n_specs_.put($0.spec_, (this.n_specs_[$0.spec_]-1)) IF T
fn cyclus::Context::traders
  ret return(this.traders_) IF T
fn cyclus::Context::n_prototypes
  ret return(this.n_prototypes_[$0]) IF T
fn cyclus::Context::n_specs
  ret return(this.n_specs_[$0]) IF T
fn cyclus::Facility::EnterNotify
  call this.ctx_.cyclus::Context::RegisterAgent(this) IF T
  call this.ctx_.cyclus::Context::RegisterTrader(this) IF T
  call this.ctx_.cyclus::Context::RegisterTimeListener(this) IF T
fn cyclus::Facility::Decommission
  call this.ctx_.cyclus::Context::UnregisterTrader(this) IF T
  call this.ctx_.cyclus::Context::UnregisterTimeListener(this) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("AgentId", this.id_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("ExitTime", this.ctx_.ti_.time_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::Record() IF T
  call this.ctx_.cyclus::Context::UnregisterAgent(this) IF T
  call this.ctx_.cyclus::Context::DelAgent(this) IF T
fn cyclus::Institution::EnterNotify
  call this.ctx_.cyclus::Context::RegisterAgent(this) IF T
  call this.ctx_.cyclus::Context::RegisterTimeListener(this) IF T
fn cyclus::Institution::Decommission
  call this.ctx_.cyclus::Context::UnregisterTimeListener(this) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("AgentId", this.id_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("ExitTime", this.ctx_.ti_.time_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::Record() IF T
  call this.ctx_.cyclus::Context::UnregisterAgent(this) IF T
  call this.ctx_.cyclus::Context::DelAgent(this) IF T
fn cyclus::Region::EnterNotify
  call this.ctx_.cyclus::Context::RegisterAgent(this) IF T
  call this.ctx_.cyclus::Context::RegisterTimeListener(this) IF T
fn cyclus::Region::Decommission
  call this.ctx_.cyclus::Context::UnregisterTimeListener(this) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("AgentId", this.id_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::AddVal("ExitTime", this.ctx_.ti_.time_) IF T
  call this.ctx_.rec_.NewDatum("AgentExit").cyclus::Datum::Record() IF T
  call this.ctx_.cyclus::Context::UnregisterAgent(this) IF T
  call this.ctx_.cyclus::Context::DelAgent(this) IF T
fn cyclus::toolkit::MatlBuyPolicy::~MatlBuyPolicy
  call this.manager_.ctx_.cyclus::Context::UnregisterTrader(this) IF this.manager_
fn cyclus::toolkit::MatlBuyPolicy::Start
  throw cyclus::ValueError() IF !this.manager_
  call this.manager_.ctx_.cyclus::Context::RegisterTrader(this) IF this.manager_
fn cyclus::toolkit::MatlBuyPolicy::Stop
  throw cyclus::ValueError() IF !this.manager_
  call this.manager_.ctx_.cyclus::Context::UnregisterTrader(this) IF this.manager_
fn cyclus::toolkit::MatlSellPolicy::~MatlSellPolicy
  call this.manager_.ctx_.cyclus::Context::UnregisterTrader(this) IF this.manager_
fn cyclus::toolkit::MatlSellPolicy::Start
  throw cyclus::ValueError() IF !this.manager_
  call this.manager_.ctx_.cyclus::Context::RegisterTrader(this) IF this.manager_
fn cyclus::toolkit::MatlSellPolicy::Stop
  throw cyclus::ValueError() IF !this.manager_
  call this.manager_.ctx_.cyclus::Context::UnregisterTrader(this) IF this.manager_
fn cyclus::Timer::Reset
  del this.tickers_.clear() IF T
  del this.cpp_tickers_.clear() IF T
  del this.py_tickers_.clear() IF T
  del this.build_queue_.clear() IF T
  del this.decom_queue_.clear() IF T
  set this.si_(SimInfo{0}) IF T
fn cyclus::Timer::Initialize
  throw cyclus::ValueError() IF !$1.m0 >= 1 | $1.m0 >= 13
  set this.want_kill_(false) IF $1.m0 >= 1 & !$1.m0 >= 13
  set this.ctx_($0) IF $1.m0 >= 1 & !$1.m0 >= 13
  set this.si_($1) IF $1.m0 >= 1 & !$1.m0 >= 13
  set this.time_(max($1.branch_time,0)) IF $1.m0 >= 1 & !$1.m0 >= 13
fn cyclus::Timer::Timer
  set this.time_(0) IF T
  set this.si_(0) IF T
  set this.want_snapshot_(false) IF T
  set this.want_kill_(false) IF T
  set this.tickers_(map{}) IF T
  set this.cpp_tickers_(vector{}) IF T
  set this.py_tickers_(vector{}) IF T
  set this.build_queue_(map{}) IF T
  set this.decom_queue_(map{}) IF T
