fn cyclus::Timer::DoBuild
  [for this.build_queue_[this.time_]] call this.ctx_.cyclus::Context::CreateAgent(elem(this.build_queue_[this.time_]).first, of(cyclus::Agent)) IF T
  [for this.build_queue_[this.time_]] call this.ctx_.CreateAgent(elem(this.build_queue_[this.time_]).first,of(cyclus::Agent)).cyclus::Agent::Build(elem(this.build_queue_[this.time_]).second) IF T
  [for this.build_queue_[this.time_]] call elem(this.build_queue_[this.time_]).second.cyclus::Agent::BuildNotify(this.ctx_.CreateAgent(elem(this.build_queue_[this.time_]).first,of(cyclus::Agent))) IF elem(this.build_queue_[this.time_]).second
  seq 1<2
fn cyclus::Timer::DoDecom
  [for this.decom_queue_[this.time_]] call elem(this.decom_queue_[this.time_]).parent_.cyclus::Agent::DecomNotify(elem(this.decom_queue_[this.time_])) IF elem(this.decom_queue_[this.time_]).parent_
  [for this.decom_queue_[this.time_]] call elem(this.decom_queue_[this.time_]).cyclus::Agent::Decommission() IF T
  seq 0<1
fn cyclus::Timer::SchedBuild
  throw cyclus::ValueError() IF !($2-this.time_) >= 1
  add this.build_queue_[$2].add(pair($1,$0)) IF ($2-this.time_) >= 1
fn cyclus::Timer::SchedDecom
  throw cyclus::ValueError() IF !($1-this.time_) >= 0
  [for this.decom_queue_] del elem(this.decom_queue_).second.erase($0) IF ($1-this.time_) >= 0 & has(elem(this.decom_queue_).second,$0)
  [for this.decom_queue_] break break() IF ($1-this.time_) >= 0 & has(elem(this.decom_queue_).second,$0)
  add this.decom_queue_[$1].add($0) IF ($1-this.time_) >= 0
  seq 1<3
fn cyclus::Context::SchedBuild
  default 2 = -1
  call this.ti_.cyclus::Timer::SchedBuild($0, $1, (this.ti_.time_+1)) IF $2 == -1
  call this.ti_.cyclus::Timer::SchedBuild($0, $1, $2) IF !$2 == -1
  call this.rec_.NewDatum("BuildSchedule").cyclus::Datum::AddVal("ParentId", $0.id_) IF $0
  call this.rec_.NewDatum("BuildSchedule").cyclus::Datum::AddVal("ParentId", -1) IF !$0
  call this.rec_.NewDatum("BuildSchedule").cyclus::Datum::AddVal("Prototype", $1) IF T
  call this.rec_.NewDatum("BuildSchedule").cyclus::Datum::AddVal("SchedTime", this.ti_.time_) IF T
  call this.rec_.NewDatum("BuildSchedule").cyclus::Datum::AddVal("BuildTime", (this.ti_.time_+1)) IF $2 == -1
  call this.rec_.NewDatum("BuildSchedule").cyclus::Datum::AddVal("BuildTime", $2) IF !$2 == -1
  call this.rec_.NewDatum("BuildSchedule").cyclus::Datum::Record() IF T
fn cyclus::Context::SchedDecom
  default 1 = -1
  call this.ti_.cyclus::Timer::SchedDecom($0, this.ti_.time_) IF $1 == -1
  call this.ti_.cyclus::Timer::SchedDecom($0, $1) IF !$1 == -1
  call this.rec_.NewDatum("DecomSchedule").cyclus::Datum::AddVal("AgentId", $0.id_) IF T
  call this.rec_.NewDatum("DecomSchedule").cyclus::Datum::AddVal("SchedTime", this.ti_.time_) IF T
  call this.rec_.NewDatum("DecomSchedule").cyclus::Datum::AddVal("DecomTime", this.ti_.time_) IF $1 == -1
  call this.rec_.NewDatum("DecomSchedule").cyclus::Datum::AddVal("DecomTime", $1) IF !$1 == -1
  call this.rec_.NewDatum("DecomSchedule").cyclus::Datum::Record() IF T
fn cyclus::Facility::CheckDecommissionCondition
  ret return(true) IF T
fn cyclus::Agent::lifetime | int
  throw cyclus::ValueError() IF !this.enter_time_ == -1
  set this.lifetime_($0) IF this.enter_time_ == -1
fn cyclus::Agent::lifetime_force
  set this.lifetime_((this.ctx_.ti_.time_-this.enter_time_+1)) IF !($0-this.ctx_.ti_.time_+this.enter_time_) >= 1 & !this.enter_time_ == -1
  set this.lifetime_($0) IF ($0-this.ctx_.ti_.time_+this.enter_time_) >= 1 | this.enter_time_ == -1
fn cyclus::Agent::lifetime | const
  ret return(this.lifetime_) IF T
