fn cyclus::toolkit::MatlBuyPolicy::MatlBuyPolicy
  set this.manager_(NULL) IF T
  set this.name_("") IF T
  set this.inv_policy("") IF T
  set this.fill_to_(std::numeric_limits<double>::max()) IF T
  set this.req_at_(std::numeric_limits<double>::max()) IF T
  set this.quantize_(-1) IF T
  set this.throughput_(std::numeric_limits<double>::max()) IF T
  set this.cumulative_cap_(-1) IF T
  set this.cycle_total_inv_(0) IF T
  set this.next_active_end_(0) IF T
  set this.next_dormant_end_(0) IF T
  set this.active_dist_(NULL) IF T
  set this.dormant_dist_(NULL) IF T
  set this.size_dist_(NULL) IF T
  set this.rsrc_commods_(map{}) IF T
  set this.commod_details_(map{}) IF T
  call cyclus::Warn("MatlBuyPolicy is experimental and its API may be subject to change", of(cyclus::EXPERIMENTAL_WARNING)) IF T
fn cyclus::toolkit::MatlBuyPolicy::ResetBehavior
  set this.throughput_(std::numeric_limits<double>::max()) IF T
  set this.quantize_(-1) IF T
  set this.fill_to_(std::numeric_limits<double>::max()) IF T
  set this.req_at_(std::numeric_limits<double>::max()) IF T
  set this.cumulative_cap_(-1) IF T
  set this.cycle_total_inv_(0) IF T
  set this.active_dist_(NULL) IF T
  set this.dormant_dist_(NULL) IF T
  set this.size_dist_(NULL) IF T
  ret return(this) IF T
fn cyclus::toolkit::MatlBuyPolicy::set_manager
  set this.manager_($0) IF $0
  throw cyclus::ValueError() IF !$0
fn cyclus::toolkit::MatlBuyPolicy::set_total_inv_tracker
  default 0 = NULL
  call this.buf_tracker_.cyclus::toolkit::TotalInvTracker::Init([this.buf_], this.buf_.cap_) IF !$0
  call $0.cyclus::toolkit::TotalInvTracker::buf_in_tracker(this.buf_) IF $0
  set this.buf_tracker_($0) IF $0 & $0.buf_in_tracker(this.buf_)
  throw cyclus::ValueError() IF $0 & !$0.buf_in_tracker(this.buf_)
fn cyclus::toolkit::MatlBuyPolicy::set_inv_policy
  default 2 = std::numeric_limits<double>::max()
  set this.req_at_(min($2,this.buf_.cap_)) IF T
  call std::transform($0.begin(), $0.end(), $0.begin(), fn{T: call tolower(%1) | T:tolower(%1)}) IF T
  set this.fill_to_(min($1,this.buf_.cap_)) IF $0 == "ss"
  set this.quantize_($1) IF $0 == "qr" & !$0 == "ss" | $0 == "rq" & !$0 == "ss"
  set this.fill_to_(min(($1+$2),this.buf_.cap_)) IF $0 == "qr" & !$0 == "ss" | $0 == "rq" & !$0 == "ss"
  throw cyclus::ValueError() IF !$0 == "qr" & !$0 == "rq" & !$0 == "ss"
fn cyclus::toolkit::MatlBuyPolicy::set_fill_to
  set this.fill_to_(min($0,this.buf_.cap_)) IF T
fn cyclus::toolkit::MatlBuyPolicy::set_req_at
  set this.req_at_(min($0,this.buf_.cap_)) IF T
fn cyclus::toolkit::MatlBuyPolicy::set_cumulative_cap
  set this.cumulative_cap_(min($0,this.buf_.cap_)) IF T
fn cyclus::toolkit::MatlBuyPolicy::set_quantize
  set this.quantize_($0) IF T
fn cyclus::toolkit::MatlBuyPolicy::set_throughput
  set this.throughput_($0) IF T
fn cyclus::toolkit::MatlBuyPolicy::init_active_dormant
  set this.active_dist_(new FixedIntDist{1}) IF !this.active_dist_
  set this.dormant_dist_(new FixedIntDist{-1}) IF !this.dormant_dist_
  set this.size_dist_(new FixedDoubleDist{1}) IF !this.size_dist_
  call new FixedDoubleDist{1}.cyclus::DoubleDistribution::max() IF !this.size_dist_
  call this.size_dist_.cyclus::DoubleDistribution::max() IF this.size_dist_
  throw cyclus::ValueError() IF new FixedDoubleDist{1}.max() > 1 & !this.size_dist_ | this.size_dist_ & this.size_dist_.max() > 1
  call new FixedIntDist{1}.cyclus::IntDistribution::sample() IF !new FixedDoubleDist{1}.max() > 1 & !this.active_dist_ & !this.size_dist_ | !this.active_dist_ & this.size_dist_ & !this.size_dist_.max() > 1
  call this.active_dist_.cyclus::IntDistribution::sample() IF !new FixedDoubleDist{1}.max() > 1 & this.active_dist_ & !this.size_dist_ | this.active_dist_ & this.size_dist_ & !this.size_dist_.max() > 1
  set this.next_active_end_((new FixedIntDist{1}.sample()+this.manager_.ctx_.ti_.time_)) IF !new FixedDoubleDist{1}.max() > 1 & !this.active_dist_ & !this.size_dist_ | !this.active_dist_ & this.size_dist_ & !this.size_dist_.max() > 1
  set this.next_active_end_((this.active_dist_.sample()+this.manager_.ctx_.ti_.time_)) IF !new FixedDoubleDist{1}.max() > 1 & this.active_dist_ & !this.size_dist_ | this.active_dist_ & this.size_dist_ & !this.size_dist_.max() > 1
  * call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Agent", this.manager_.id_) IF !new FixedDoubleDist{1}.max() > 1 & this.manager_ & !this.size_dist_ | this.manager_ & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", this.manager_.ctx_.ti_.time_) IF !new FixedDoubleDist{1}.max() > 1 & this.manager_ & !this.size_dist_ | this.manager_ & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "CumulativeCap") IF !new FixedDoubleDist{1}.max() > 1 & this.cumulative_cap_ > 0 & this.manager_ & !this.size_dist_ | this.cumulative_cap_ > 0 & this.manager_ & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", new FixedIntDist{1}.sample()) IF !new FixedDoubleDist{1}.max() > 1 & !this.active_dist_ & this.manager_ & !this.size_dist_ | !this.active_dist_ & this.manager_ & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", this.active_dist_.sample()) IF !new FixedDoubleDist{1}.max() > 1 & this.active_dist_ & this.manager_ & !this.size_dist_ | this.active_dist_ & this.manager_ & this.size_dist_ & !this.size_dist_.max() > 1
  * call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::Record() IF !new FixedDoubleDist{1}.max() > 1 & this.manager_ & !this.size_dist_ | this.manager_ & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "Active") IF !new FixedDoubleDist{1}.max() > 1 & !this.cumulative_cap_ > 0 & this.manager_ & !this.size_dist_ | !this.cumulative_cap_ > 0 & this.manager_ & this.size_dist_ & !this.size_dist_.max() > 1
  * call new FixedIntDist{-1}.cyclus::IntDistribution::sample() IF !new FixedDoubleDist{1}.max() > 1 & !this.dormant_dist_ & !this.size_dist_ | !this.dormant_dist_ & this.size_dist_ & !this.size_dist_.max() > 1
  * call this.dormant_dist_.cyclus::IntDistribution::sample() IF !new FixedDoubleDist{1}.max() > 1 & this.dormant_dist_ & !this.size_dist_ | this.dormant_dist_ & this.size_dist_ & !this.size_dist_.max() > 1
  set this.next_dormant_end_(-1) IF !new FixedDoubleDist{1}.max() > 1 & !new FixedIntDist{-1}.sample() >= 0 & !this.dormant_dist_ & !this.size_dist_ | !new FixedDoubleDist{1}.max() > 1 & this.cumulative_cap_ > 0 & !this.size_dist_ | !new FixedDoubleDist{1}.max() > 1 & this.dormant_dist_ & !this.dormant_dist_.sample() >= 0 & !this.size_dist_ | !new FixedIntDist{-1}.sample() >= 0 & !this.dormant_dist_ & this.size_dist_ & !this.size_dist_.max() > 1 | this.cumulative_cap_ > 0 & this.size_dist_ & !this.size_dist_.max() > 1 | this.dormant_dist_ & !this.dormant_dist_.sample() >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  set this.next_dormant_end_((max((new FixedIntDist{1}.sample()+this.manager_.ctx_.ti_.time_),1)+new FixedIntDist{-1}.sample())) IF !new FixedDoubleDist{1}.max() > 1 & new FixedIntDist{-1}.sample() >= 0 & !this.active_dist_ & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | new FixedIntDist{-1}.sample() >= 0 & !this.active_dist_ & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  set this.next_dormant_end_((max((this.active_dist_.sample()+this.manager_.ctx_.ti_.time_),1)+new FixedIntDist{-1}.sample())) IF !new FixedDoubleDist{1}.max() > 1 & new FixedIntDist{-1}.sample() >= 0 & this.active_dist_ & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | new FixedIntDist{-1}.sample() >= 0 & this.active_dist_ & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  set this.next_dormant_end_((max((new FixedIntDist{1}.sample()+this.manager_.ctx_.ti_.time_),1)+this.dormant_dist_.sample())) IF !new FixedDoubleDist{1}.max() > 1 & !this.active_dist_ & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.next_dormant_end_ >= 0 & !this.size_dist_ | !this.active_dist_ & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  set this.next_dormant_end_((max((this.active_dist_.sample()+this.manager_.ctx_.ti_.time_),1)+this.dormant_dist_.sample())) IF !new FixedDoubleDist{1}.max() > 1 & this.active_dist_ & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.next_dormant_end_ >= 0 & !this.size_dist_ | this.active_dist_ & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", max((new FixedIntDist{1}.sample()+this.manager_.ctx_.ti_.time_),1)) IF !new FixedDoubleDist{1}.max() > 1 & !this.active_dist_ & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.manager_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | !new FixedDoubleDist{1}.max() > 1 & new FixedIntDist{-1}.sample() >= 0 & !this.active_dist_ & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.manager_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | !this.active_dist_ & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.manager_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1 | new FixedIntDist{-1}.sample() >= 0 & !this.active_dist_ & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.manager_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", max((this.active_dist_.sample()+this.manager_.ctx_.ti_.time_),1)) IF !new FixedDoubleDist{1}.max() > 1 & new FixedIntDist{-1}.sample() >= 0 & this.active_dist_ & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.manager_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | !new FixedDoubleDist{1}.max() > 1 & this.active_dist_ & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.manager_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | new FixedIntDist{-1}.sample() >= 0 & this.active_dist_ & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.manager_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1 | this.active_dist_ & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.manager_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "Dormant") IF !new FixedDoubleDist{1}.max() > 1 & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.manager_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | !new FixedDoubleDist{1}.max() > 1 & new FixedIntDist{-1}.sample() >= 0 & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.manager_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.manager_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1 | new FixedIntDist{-1}.sample() >= 0 & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.manager_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", new FixedIntDist{-1}.sample()) IF !new FixedDoubleDist{1}.max() > 1 & new FixedIntDist{-1}.sample() >= 0 & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.manager_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | new FixedIntDist{-1}.sample() >= 0 & !this.cumulative_cap_ > 0 & !this.dormant_dist_ & this.manager_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", this.dormant_dist_.sample()) IF !new FixedDoubleDist{1}.max() > 1 & !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.manager_ & this.next_dormant_end_ >= 0 & !this.size_dist_ | !this.cumulative_cap_ > 0 & this.dormant_dist_ & this.dormant_dist_.sample() >= 0 & this.manager_ & this.next_dormant_end_ >= 0 & this.size_dist_ & !this.size_dist_.max() > 1
fn cyclus::toolkit::MatlBuyPolicy::Set | std::basic_string<char>
  put @map<int, double>.put(10010000, 1e-100) IF T
  call cyclus::Composition::CreateFromMass(@map<int, double>) IF T
  set this.commod_details_[$0].comp(cyclus::Composition::CreateFromMass(@map<int, double>)) IF T
  set this.commod_details_[$0].pref(1) IF T
  ret return(this) IF T
fn cyclus::toolkit::MatlBuyPolicy::Set | std::basic_string<char>; boost::shared_ptr<cyclus::Composition>
  set this.commod_details_[$0].comp($1) IF T
  set this.commod_details_[$0].pref(1) IF T
  ret return(this) IF T
fn cyclus::toolkit::MatlBuyPolicy::Set | std::basic_string<char>; boost::shared_ptr<cyclus::Composition>; double
  set this.commod_details_[$0].comp($1) IF T
  set this.commod_details_[$0].pref($2) IF T
  ret return(this) IF T
fn cyclus::toolkit::MatlBuyPolicy::Unset
  del this.commod_details_.erase($0) IF has(this.commod_details_,$0)
  ret return(this) IF T
fn cyclus::toolkit::MatlBuyPolicy::AcceptMatlTrades
  del this.rsrc_commods_.clear() IF T
  [for $0] put this.rsrc_commods_.put(elem($0).second, elem($0).first.request.commodity_) IF T
  [for $0] set this.cycle_total_inv_((elem($0).second.qty_+~this.cycle_total_inv_)) IF this.cumulative_cap_ > 0
  [for $0] call this.buf_.cyclus::toolkit::ResBuf::Push(elem($0).second) IF T
  call this.dormant_dist_.cyclus::IntDistribution::sample() IF (cyclus::cy_eps_rsrc+fold($0; 0; !this.cumulative_cap_ > 0:~ ; this.cumulative_cap_ > 0:(elem($0).second.qty_+~))-this.cumulative_cap_+this.cycle_total_inv_) > 0 & this.cumulative_cap_ > 0
  set this.next_dormant_end_((this.dormant_dist_.sample()+this.manager_.ctx_.ti_.time_+1)) IF (cyclus::cy_eps_rsrc+fold($0; 0; !this.cumulative_cap_ > 0:~ ; this.cumulative_cap_ > 0:(elem($0).second.qty_+~))-this.cumulative_cap_+this.cycle_total_inv_) > 0 & this.cumulative_cap_ > 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Agent", this.manager_.id_) IF (cyclus::cy_eps_rsrc+fold($0; 0; !this.cumulative_cap_ > 0:~ ; this.cumulative_cap_ > 0:(elem($0).second.qty_+~))-this.cumulative_cap_+this.cycle_total_inv_) > 0 & this.cumulative_cap_ > 0 & this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", (this.manager_.ctx_.ti_.time_+1)) IF (cyclus::cy_eps_rsrc+fold($0; 0; !this.cumulative_cap_ > 0:~ ; this.cumulative_cap_ > 0:(elem($0).second.qty_+~))-this.cumulative_cap_+this.cycle_total_inv_) > 0 & this.cumulative_cap_ > 0 & this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "Dormant") IF (cyclus::cy_eps_rsrc+fold($0; 0; !this.cumulative_cap_ > 0:~ ; this.cumulative_cap_ > 0:(elem($0).second.qty_+~))-this.cumulative_cap_+this.cycle_total_inv_) > 0 & this.cumulative_cap_ > 0 & this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", this.dormant_dist_.sample()) IF (cyclus::cy_eps_rsrc+fold($0; 0; !this.cumulative_cap_ > 0:~ ; this.cumulative_cap_ > 0:(elem($0).second.qty_+~))-this.cumulative_cap_+this.cycle_total_inv_) > 0 & this.cumulative_cap_ > 0 & this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::Record() IF (cyclus::cy_eps_rsrc+fold($0; 0; !this.cumulative_cap_ > 0:~ ; this.cumulative_cap_ > 0:(elem($0).second.qty_+~))-this.cumulative_cap_+this.cycle_total_inv_) > 0 & this.cumulative_cap_ > 0 & this.manager_
  set this.cycle_total_inv_(0) IF (cyclus::cy_eps_rsrc+fold($0; 0; !this.cumulative_cap_ > 0:~ ; this.cumulative_cap_ > 0:(elem($0).second.qty_+~))-this.cumulative_cap_+this.cycle_total_inv_) > 0 & this.cumulative_cap_ > 0
  seq 0<1
fn cyclus::toolkit::MatlBuyPolicy::SetNextActiveTime
  call this.active_dist_.cyclus::IntDistribution::sample() IF T
  set this.next_active_end_((this.active_dist_.sample()+this.manager_.ctx_.ti_.time_)) IF T
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Agent", this.manager_.id_) IF this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", this.manager_.ctx_.ti_.time_) IF this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "CumulativeCap") IF this.cumulative_cap_ > 0 & this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", this.active_dist_.sample()) IF this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::Record() IF this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "Active") IF !this.cumulative_cap_ > 0 & this.manager_
fn cyclus::toolkit::MatlBuyPolicy::SetNextDormantTime
  call this.dormant_dist_.cyclus::IntDistribution::sample() IF this.cumulative_cap_ > 0 | this.next_dormant_end_ >= 0
  set this.next_dormant_end_((this.dormant_dist_.sample()+this.manager_.ctx_.ti_.time_+1)) IF this.cumulative_cap_ > 0
  set this.next_dormant_end_((max(1,this.next_active_end_)+this.dormant_dist_.sample())) IF !this.cumulative_cap_ > 0 & this.next_dormant_end_ >= 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Agent", this.manager_.id_) IF this.cumulative_cap_ > 0 & this.manager_ | this.manager_ & this.next_dormant_end_ >= 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", (this.manager_.ctx_.ti_.time_+1)) IF this.cumulative_cap_ > 0 & this.manager_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", max(1,this.next_active_end_)) IF !this.cumulative_cap_ > 0 & this.manager_ & this.next_dormant_end_ >= 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "Dormant") IF this.cumulative_cap_ > 0 & this.manager_ | this.manager_ & this.next_dormant_end_ >= 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", this.dormant_dist_.sample()) IF this.cumulative_cap_ > 0 & this.manager_ | this.manager_ & this.next_dormant_end_ >= 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::Record() IF this.cumulative_cap_ > 0 & this.manager_ | this.manager_ & this.next_dormant_end_ >= 0
fn cyclus::toolkit::MatlBuyPolicy::SampleRequestSize
  call this.size_dist_.cyclus::DoubleDistribution::sample() IF T
  ret return(this.size_dist_.sample()) IF T
fn cyclus::toolkit::MatlBuyPolicy::CheckActiveDormantCumulativeTimes
  set this.next_dormant_end_(-1) IF this.cumulative_cap_ > 0 & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_
  call this.active_dist_.cyclus::IntDistribution::sample() IF !this.cumulative_cap_ > 0 & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_
  set this.next_active_end_((this.active_dist_.sample()+this.manager_.ctx_.ti_.time_)) IF !this.cumulative_cap_ > 0 & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_
  * call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Agent", this.manager_.id_) IF !this.cumulative_cap_ > 0 & this.manager_ & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", this.manager_.ctx_.ti_.time_) IF !this.cumulative_cap_ > 0 & this.manager_ & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "Active") IF !this.cumulative_cap_ > 0 & this.manager_ & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", this.active_dist_.sample()) IF !this.cumulative_cap_ > 0 & this.manager_ & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_
  * call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::Record() IF !this.cumulative_cap_ > 0 & this.manager_ & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_
  call this.dormant_dist_.cyclus::IntDistribution::sample() IF !this.cumulative_cap_ > 0 & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_ & this.next_dormant_end_ >= 0
  set this.next_dormant_end_((max((this.active_dist_.sample()+this.manager_.ctx_.ti_.time_),1)+this.dormant_dist_.sample())) IF !this.cumulative_cap_ > 0 & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_ & this.next_dormant_end_ >= 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", max((this.active_dist_.sample()+this.manager_.ctx_.ti_.time_),1)) IF !this.cumulative_cap_ > 0 & this.manager_ & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_ & this.next_dormant_end_ >= 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", "Dormant") IF !this.cumulative_cap_ > 0 & this.manager_ & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_ & this.next_dormant_end_ >= 0
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", this.dormant_dist_.sample()) IF !this.cumulative_cap_ > 0 & this.manager_ & this.manager_.ctx_.ti_.time_ == this.next_dormant_end_ & this.next_dormant_end_ >= 0
fn cyclus::toolkit::MatlBuyPolicy::RecordActiveDormantTime
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Agent", this.manager_.id_) IF T
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Time", $0) IF T
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Type", $1) IF T
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::AddVal("Length", $2) IF T
  call this.manager_.ctx_.rec_.NewDatum("BuyPolActiveDormant").cyclus::Datum::Record() IF T
fn cyclus::toolkit::MatlBuyPolicy::TotalAvailable
  call this.buf_tracker_.cyclus::toolkit::TotalInvTracker::total_capacity_bufs() IF T
  ret return(min((-this.buf_.qty_+this.fill_to_),max((min(this.buf_tracker_.max_inv_size_,this.buf_tracker_.total_capacity_bufs())-this.buf_tracker_.quantity()),0),max((this.buf_.cap_-this.buf_.qty_),0),this.throughput_)) IF T
fn cyclus::toolkit::MatlBuyPolicy::MakeReq
  ret return(true) IF !(this.buf_tracker_.quantity()-this.req_at_) > 0
fn cyclus::toolkit::MatlBuyPolicy::Excl
  ret return(true) IF this.quantize_ > 0
fn cyclus::toolkit::MatlBuyPolicy::ReqQty
  ret return(this.quantize_) IF this.quantize_ > 0
  ret return($0) IF !this.quantize_ > 0
fn cyclus::toolkit::MatlBuyPolicy::NReq
  ret return(($0/this.quantize_)) IF this.quantize_ > 0
  ret return(1) IF !this.quantize_ > 0
fn cyclus::toolkit::MatlBuyPolicy::rsrc_commods
  ret return(this.rsrc_commods_) IF T
fn cyclus::toolkit::MatlBuyPolicy::no_cycle_end_time
  ret return(true) IF !this.next_active_end_ >= 0 | !this.next_dormant_end_ >= 0
fn cyclus::toolkit::MatlBuyPolicy::dormant
  ret return(true) IF ($0-this.next_active_end_) >= 0 & !($0-this.next_dormant_end_) >= 0
fn cyclus::toolkit::MatlBuyPolicy::use_cumulative_capacity
  ret return(true) IF this.cumulative_cap_ > 0
fn cyclus::toolkit::MatlBuyPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; cyclus::toolkit::TotalInvTracker *
  stop: MatlBuyPolicy::(set_|init_active|Set|Check|Sample|Reset|Record|TotalAvail|ReqQty|NReq|MakeReq)
  call this.cyclus::toolkit::MatlBuyPolicy::set_manager($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_total_inv_tracker($3) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::init_active_dormant() IF T
  ret return(this) IF T
  seq 0<4 1<3
fn cyclus::toolkit::MatlBuyPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; cyclus::toolkit::TotalInvTracker *; double; boost::shared_ptr<cyclus::IntDistribution>; boost::shared_ptr<cyclus::IntDistribution>; boost::shared_ptr<cyclus::DoubleDistribution>
  stop: MatlBuyPolicy::(set_|init_active|Set|Check|Sample|Reset|Record|TotalAvail|ReqQty|NReq|MakeReq)
  default 5 = NULL
  default 6 = NULL
  default 7 = NULL
  call this.cyclus::toolkit::MatlBuyPolicy::set_manager($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_total_inv_tracker($3) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_throughput($4) IF T
  set this.active_dist_($5) IF T
  set this.dormant_dist_($6) IF T
  set this.size_dist_($7) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::init_active_dormant() IF T
  ret return(this) IF T
  seq 0<8 1<3 5<8 6<8 7<8
fn cyclus::toolkit::MatlBuyPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; cyclus::toolkit::TotalInvTracker *; double; double
  stop: MatlBuyPolicy::(set_|init_active|Set|Check|Sample|Reset|Record|TotalAvail|ReqQty|NReq|MakeReq)
  call this.cyclus::toolkit::MatlBuyPolicy::set_manager($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_total_inv_tracker($3) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_throughput($4) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_quantize($5) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::init_active_dormant() IF T
  ret return(this) IF T
  seq 0<6 1<3
fn cyclus::toolkit::MatlBuyPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; cyclus::toolkit::TotalInvTracker *; double; std::basic_string<char>; double; double
  stop: MatlBuyPolicy::(set_|init_active|Set|Check|Sample|Reset|Record|TotalAvail|ReqQty|NReq|MakeReq)
  call this.cyclus::toolkit::MatlBuyPolicy::set_manager($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_total_inv_tracker($3) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_inv_policy($5, $6, $7) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_throughput($4) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::init_active_dormant() IF T
  ret return(this) IF T
  seq 0<6 1<3 1<4
fn cyclus::toolkit::MatlBuyPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; cyclus::toolkit::TotalInvTracker *; std::basic_string<char>; double; double
  stop: MatlBuyPolicy::(set_|init_active|Set|Check|Sample|Reset|Record|TotalAvail|ReqQty|NReq|MakeReq)
  call this.cyclus::toolkit::MatlBuyPolicy::set_manager($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_total_inv_tracker($3) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_inv_policy($4, $5, $6) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::init_active_dormant() IF T
  ret return(this) IF T
  seq 0<5 1<3 1<4
fn cyclus::toolkit::MatlBuyPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; cyclus::toolkit::TotalInvTracker *; double; double; boost::shared_ptr<cyclus::IntDistribution>
  stop: MatlBuyPolicy::(set_|init_active|Set|Check|Sample|Reset|Record|TotalAvail|ReqQty|NReq|MakeReq)
  call this.cyclus::toolkit::MatlBuyPolicy::set_manager($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_total_inv_tracker($3) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_throughput($4) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::set_cumulative_cap($5) IF T
  set this.dormant_dist_($6) IF T
  call this.cyclus::toolkit::MatlBuyPolicy::init_active_dormant() IF T
  ret return(this) IF T
  seq 0<7 1<3 1<5 5<7 6<7
fn cyclus::toolkit::MatlBuyPolicy::GetMatlRequests
  stop: MatlBuyPolicy::(set_|init_active|Set|Check|Sample|Reset|Record|TotalAvail|ReqQty|NReq|MakeReq)
  del this.rsrc_commods_.clear() IF T
  call this.cyclus::toolkit::MatlBuyPolicy::SampleRequestSize() IF !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 | !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0
  call this.cyclus::toolkit::MatlBuyPolicy::CheckActiveDormantCumulativeTimes() IF T
  ret return(@set<boost::shared_ptr<RequestPortfolio<Material>>>) IF T
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Material::CreateUntracked(this.ReqQty(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))),elem(this.commod_details_).second.comp), this, elem(this.commod_details_).first, elem(this.commod_details_).second.pref, true, NULL) IF !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & this.cumulative_cap_ > 0 & this.quantize_ > 0 | !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & this.cumulative_cap_ > 0 & this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Material::CreateUntracked(this.ReqQty(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))),elem(this.commod_details_).second.comp), this, elem(this.commod_details_).first, elem(this.commod_details_).second.pref, false, NULL) IF !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & this.cumulative_cap_ > 0 & !this.quantize_ > 0 | !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & this.cumulative_cap_ > 0 & !this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Material::CreateUntracked(this.ReqQty((this.SampleRequestSize()*this.TotalAvailable()')),elem(this.commod_details_).second.comp), this, elem(this.commod_details_).first, elem(this.commod_details_).second.pref, true, NULL) IF ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !this.cumulative_cap_ > 0 & this.quantize_ > 0 | ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !this.cumulative_cap_ > 0 & this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Material::CreateUntracked(this.ReqQty((this.SampleRequestSize()*this.TotalAvailable()')),elem(this.commod_details_).second.comp), this, elem(this.commod_details_).first, elem(this.commod_details_).second.pref, false, NULL) IF ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !this.cumulative_cap_ > 0 & !this.quantize_ > 0 | ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !this.cumulative_cap_ > 0 & !this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Material::CreateUntracked(this.ReqQty(0),elem(this.commod_details_).second.comp), this, elem(this.commod_details_).first, elem(this.commod_details_).second.pref, true, NULL) IF (this.buf_tracker_.quantity()-this.req_at_) > 0 & !cyclus::cy_eps > 0 & this.quantize_ > 0 | (this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !(this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !cyclus::cy_eps > 0 & this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddRequest(cyclus::Material::CreateUntracked(this.ReqQty(0),elem(this.commod_details_).second.comp), this, elem(this.commod_details_).first, elem(this.commod_details_).second.pref, false, NULL) IF (this.buf_tracker_.quantity()-this.req_at_) > 0 & !cyclus::cy_eps > 0 & !this.quantize_ > 0 | (this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !(this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !cyclus::cy_eps > 0 & !this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] add @vector<Request<Material> *>.add(new RequestPortfolio{}.AddRequest(cyclus::Material::CreateUntracked(this.ReqQty(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))),elem(this.commod_details_).second.comp),this,elem(this.commod_details_).first,elem(this.commod_details_).second.pref,true,NULL)) IF !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & this.cumulative_cap_ > 0 & this.quantize_ > 0 | !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & this.cumulative_cap_ > 0 & this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] add @vector<Request<Material> *>.add(new RequestPortfolio{}.AddRequest(cyclus::Material::CreateUntracked(this.ReqQty(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))),elem(this.commod_details_).second.comp),this,elem(this.commod_details_).first,elem(this.commod_details_).second.pref,false,NULL)) IF !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & this.cumulative_cap_ > 0 & !this.quantize_ > 0 | !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & this.cumulative_cap_ > 0 & !this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] add @vector<Request<Material> *>.add(new RequestPortfolio{}.AddRequest(cyclus::Material::CreateUntracked(this.ReqQty((this.SampleRequestSize()*this.TotalAvailable()')),elem(this.commod_details_).second.comp),this,elem(this.commod_details_).first,elem(this.commod_details_).second.pref,true,NULL)) IF ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !this.cumulative_cap_ > 0 & this.quantize_ > 0 | ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !this.cumulative_cap_ > 0 & this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] add @vector<Request<Material> *>.add(new RequestPortfolio{}.AddRequest(cyclus::Material::CreateUntracked(this.ReqQty((this.SampleRequestSize()*this.TotalAvailable()')),elem(this.commod_details_).second.comp),this,elem(this.commod_details_).first,elem(this.commod_details_).second.pref,false,NULL)) IF ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !this.cumulative_cap_ > 0 & !this.quantize_ > 0 | ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !this.cumulative_cap_ > 0 & !this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] add @vector<Request<Material> *>.add(new RequestPortfolio{}.AddRequest(cyclus::Material::CreateUntracked(this.ReqQty(0),elem(this.commod_details_).second.comp),this,elem(this.commod_details_).first,elem(this.commod_details_).second.pref,true,NULL)) IF (this.buf_tracker_.quantity()-this.req_at_) > 0 & !cyclus::cy_eps > 0 & this.quantize_ > 0 | (this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !(this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !cyclus::cy_eps > 0 & this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] [for this.commod_details_] add @vector<Request<Material> *>.add(new RequestPortfolio{}.AddRequest(cyclus::Material::CreateUntracked(this.ReqQty(0),elem(this.commod_details_).second.comp),this,elem(this.commod_details_).first,elem(this.commod_details_).second.pref,false,NULL)) IF (this.buf_tracker_.quantity()-this.req_at_) > 0 & !cyclus::cy_eps > 0 & !this.quantize_ > 0 | (this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !(this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !cyclus::cy_eps > 0 & !this.quantize_ > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] call new RequestPortfolio{}.cyclus::RequestPortfolio::AddMutualReqs(@vector<Request<Material> *>) IF !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & this.cumulative_cap_ > 0 | !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & this.cumulative_cap_ > 0 | ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !this.cumulative_cap_ > 0 | ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !this.cumulative_cap_ > 0 | (this.buf_tracker_.quantity()-this.req_at_) > 0 & !cyclus::cy_eps > 0 | (this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !(this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !cyclus::cy_eps > 0
  [for phi{times(this.NReq((this.SampleRequestSize()*this.TotalAvailable()')))|times(this.NReq(0))|times(this.NReq(min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))))}] add @set<boost::shared_ptr<RequestPortfolio<Material>>>.add(new RequestPortfolio{}) IF !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & this.cumulative_cap_ > 0 | !(cyclus::cy_eps-min((this.SampleRequestSize()*this.TotalAvailable()'),(this.cumulative_cap_-this.cycle_total_inv_))) > 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & this.cumulative_cap_ > 0 | ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & !(this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !this.cumulative_cap_ > 0 | ((this.SampleRequestSize()*this.TotalAvailable()')-cyclus::cy_eps) >= 0 & !(this.buf_tracker_.quantity()-this.req_at_) > 0 & (this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !this.cumulative_cap_ > 0 | (this.buf_tracker_.quantity()-this.req_at_) > 0 & !cyclus::cy_eps > 0 | (this.manager_.ctx_.ti_.time_-this.next_active_end_) >= 0 & !(this.manager_.ctx_.ti_.time_-this.next_dormant_end_) >= 0 & !cyclus::cy_eps > 0
  seq 4<16 5<16 6<16 7<16 8<16 9<16
fn cyclus::toolkit::MatlSellPolicy::MatlSellPolicy
  set this.manager_(NULL) IF T
  set this.commods_(set{}) IF T
  set this.quantize_(0) IF T
  set this.throughput_(std::numeric_limits<double>::max()) IF T
  set this.name_("") IF T
  set this.ignore_comp_(false) IF T
  set this.package_(cyclus::Package::unpackaged()) IF T
  set this.transport_unit_(cyclus::TransportUnit::unrestricted()) IF T
  call cyclus::Warn("MatlSellPolicy is experimental and its API may be subject to change", of(cyclus::EXPERIMENTAL_WARNING)) IF T
fn cyclus::toolkit::MatlSellPolicy::set_quantize
  set this.quantize_($0) IF T
fn cyclus::toolkit::MatlSellPolicy::set_throughput
  set this.throughput_($0) IF T
fn cyclus::toolkit::MatlSellPolicy::set_ignore_comp
  set this.ignore_comp_($0) IF T
fn cyclus::toolkit::MatlSellPolicy::set_package
  call this.manager_.ctx_.GetPackage($0).cyclus::Package::GetFillMass(this.quantize_) IF !cyclus::Package::unpackaged_name_ == this.manager_.ctx_.GetPackage($0).name_ & this.manager_ & this.manager_.ctx_.GetPackage($0).strategy_ == "equal" & this.quantize_ > 0 | !cyclus::Package::unpackaged_name_ == this.manager_.ctx_.GetPackage($0).name_ & this.manager_ & this.manager_.ctx_.GetPackage($0).strategy_ == "first" & this.quantize_ > 0
  throw cyclus::ValueError() IF !cyclus::Package::unpackaged_name_ == this.manager_.ctx_.GetPackage($0).name_ & !size(this.manager_.ctx_.GetPackage($0).GetFillMass(this.quantize_)) == 1 & this.manager_ & this.quantize_ > 0 | !cyclus::Package::unpackaged_name_ == this.manager_.ctx_.GetPackage($0).name_ & fmod(this.manager_.ctx_.GetPackage($0).GetFillMass(this.quantize_)[0],this.quantize_) > 0 & this.manager_ & this.quantize_ > 0 | !cyclus::Package::unpackaged_name_ == this.manager_.ctx_.GetPackage($0).name_ & this.manager_ & !this.manager_.ctx_.GetPackage($0).strategy_ == "equal" & !this.manager_.ctx_.GetPackage($0).strategy_ == "first" & this.quantize_ > 0
  set this.package_(this.manager_.ctx_.GetPackage($0)) IF !fmod(this.manager_.ctx_.GetPackage($0).GetFillMass(this.quantize_)[0],this.quantize_) > 0 & size(this.manager_.ctx_.GetPackage($0).GetFillMass(this.quantize_)) == 1 & this.manager_ & this.manager_.ctx_.GetPackage($0).strategy_ == "equal" | !fmod(this.manager_.ctx_.GetPackage($0).GetFillMass(this.quantize_)[0],this.quantize_) > 0 & size(this.manager_.ctx_.GetPackage($0).GetFillMass(this.quantize_)) == 1 & this.manager_ & this.manager_.ctx_.GetPackage($0).strategy_ == "first" | cyclus::Package::unpackaged_name_ == this.manager_.ctx_.GetPackage($0).name_ & this.manager_ | this.manager_ & !this.quantize_ > 0
fn cyclus::toolkit::MatlSellPolicy::set_transport_unit
  call this.package_.cyclus::Package::GetFillMass(this.quantize_) IF !cyclus::TransportUnit::unrestricted_name_ == this.manager_.ctx_.GetTransportUnit($0).name_ & this.manager_ & this.quantize_ > 0
  call this.manager_.ctx_.GetTransportUnit($0).cyclus::TransportUnit::MaxShippablePackages(size(this.package_.GetFillMass(this.quantize_))) IF !cyclus::TransportUnit::unrestricted_name_ == this.manager_.ctx_.GetTransportUnit($0).name_ & this.manager_ & this.quantize_ > 0
  throw cyclus::ValueError() IF !cyclus::TransportUnit::unrestricted_name_ == this.manager_.ctx_.GetTransportUnit($0).name_ & !size(this.package_.GetFillMass(this.quantize_)) == this.manager_.ctx_.GetTransportUnit($0).MaxShippablePackages(size(this.package_.GetFillMass(this.quantize_))) & this.manager_ & this.quantize_ > 0
  set this.transport_unit_(this.manager_.ctx_.GetTransportUnit($0)) IF cyclus::TransportUnit::unrestricted_name_ == this.manager_.ctx_.GetTransportUnit($0).name_ & this.manager_ | size(this.package_.GetFillMass(this.quantize_)) == this.manager_.ctx_.GetTransportUnit($0).MaxShippablePackages(size(this.package_.GetFillMass(this.quantize_))) & this.manager_ | this.manager_ & !this.quantize_ > 0
fn cyclus::toolkit::MatlSellPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>
  set this.manager_($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  ret return(this) IF T
fn cyclus::toolkit::MatlSellPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; double
  set this.manager_($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  set this.throughput_($3) IF T
  ret return(this) IF T
fn cyclus::toolkit::MatlSellPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; bool
  set this.manager_($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  set this.ignore_comp_($3) IF T
  ret return(this) IF T
fn cyclus::toolkit::MatlSellPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; double; bool
  set this.manager_($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  set this.throughput_($3) IF T
  set this.ignore_comp_($4) IF T
  ret return(this) IF T
fn cyclus::toolkit::MatlSellPolicy::Init | cyclus::Agent *; cyclus::toolkit::ResBuf<cyclus::Material> *; std::basic_string<char>; double; bool; double; std::basic_string<char>; std::basic_string<char>
  default 6 = cyclus::Package::unpackaged_name_
  default 7 = cyclus::TransportUnit::unrestricted_name_
  set this.manager_($0) IF T
  set this.buf_($1) IF T
  set this.name_($2) IF T
  set this.quantize_($5) IF T
  set this.throughput_($3) IF T
  set this.ignore_comp_($4) IF T
  * call $0.ctx_.GetPackage($6).cyclus::Package::GetFillMass($5) IF $0 & !$0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & $0.ctx_.GetPackage($6).strategy_ == "equal" & $5 > 0 | $0 & !$0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & $0.ctx_.GetPackage($6).strategy_ == "first" & $5 > 0 | $0 & $0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & !$0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & $5 > 0
  throw cyclus::ValueError() IF $0 & !$0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & !$0.ctx_.GetPackage($6).strategy_ == "equal" & !$0.ctx_.GetPackage($6).strategy_ == "first" & $5 > 0 | $0 & !$0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & $5 > 0 & !size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0 & !$0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & $5 > 0 & fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 | $0 & !$0.ctx_.GetTransportUnit($7).MaxShippablePackages(size($0.ctx_.GetPackage($6).GetFillMass($5))) == size($0.ctx_.GetPackage($6).GetFillMass($5)) & !$0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & $5 > 0
  set this.package_($0.ctx_.GetPackage($6)) IF $0 & !$5 > 0 | $0 & $0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ | $0 & $0.ctx_.GetPackage($6).strategy_ == "equal" & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0 & $0.ctx_.GetPackage($6).strategy_ == "first" & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1
  call $0.ctx_.GetTransportUnit($7).cyclus::TransportUnit::MaxShippablePackages(size($0.ctx_.GetPackage($6).GetFillMass($5))) IF $0 & $0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & !$0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & $5 > 0 | $0 & $0.ctx_.GetPackage($6).strategy_ == "equal" & !$0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & $5 > 0 & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0 & $0.ctx_.GetPackage($6).strategy_ == "first" & !$0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & $5 > 0 & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1
  set this.transport_unit_($0.ctx_.GetTransportUnit($7)) IF $0 & !$5 > 0 | $0 & $0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & $0.ctx_.GetTransportUnit($7).MaxShippablePackages(size($0.ctx_.GetPackage($6).GetFillMass($5))) == size($0.ctx_.GetPackage($6).GetFillMass($5)) | $0 & $0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & $0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ | $0 & $0.ctx_.GetPackage($6).strategy_ == "equal" & $0.ctx_.GetTransportUnit($7).MaxShippablePackages(size($0.ctx_.GetPackage($6).GetFillMass($5))) == size($0.ctx_.GetPackage($6).GetFillMass($5)) & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0 & $0.ctx_.GetPackage($6).strategy_ == "equal" & $0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0 & $0.ctx_.GetPackage($6).strategy_ == "first" & $0.ctx_.GetTransportUnit($7).MaxShippablePackages(size($0.ctx_.GetPackage($6).GetFillMass($5))) == size($0.ctx_.GetPackage($6).GetFillMass($5)) & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0 & $0.ctx_.GetPackage($6).strategy_ == "first" & $0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1
  ret return(this) IF !$0 | !$5 > 0 | $0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & $0.ctx_.GetTransportUnit($7).MaxShippablePackages(size($0.ctx_.GetPackage($6).GetFillMass($5))) == size($0.ctx_.GetPackage($6).GetFillMass($5)) | $0.ctx_.GetPackage($6).name_ == cyclus::Package::unpackaged_name_ & $0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ | $0.ctx_.GetPackage($6).strategy_ == "equal" & $0.ctx_.GetTransportUnit($7).MaxShippablePackages(size($0.ctx_.GetPackage($6).GetFillMass($5))) == size($0.ctx_.GetPackage($6).GetFillMass($5)) & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0.ctx_.GetPackage($6).strategy_ == "equal" & $0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0.ctx_.GetPackage($6).strategy_ == "first" & $0.ctx_.GetTransportUnit($7).MaxShippablePackages(size($0.ctx_.GetPackage($6).GetFillMass($5))) == size($0.ctx_.GetPackage($6).GetFillMass($5)) & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1 | $0.ctx_.GetPackage($6).strategy_ == "first" & $0.ctx_.GetTransportUnit($7).name_ == cyclus::TransportUnit::unrestricted_name_ & !fmod($0.ctx_.GetPackage($6).GetFillMass($5)[0],$5) > 0 & size($0.ctx_.GetPackage($6).GetFillMass($5)) == 1
fn cyclus::toolkit::MatlSellPolicy::Set
  add this.commods_.add($0) IF !has(this.commods_,$0)
  ret return(this) IF T
fn cyclus::toolkit::MatlSellPolicy::Limit
  ret return(min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),this.throughput_)) IF this.quantize_ > 0
  ret return(min(this.buf_.qty_,this.throughput_)) IF !this.quantize_ > 0
fn cyclus::toolkit::MatlSellPolicy::GetMatlBids
  ret return(@set<boost::shared_ptr<BidPortfolio<Material>>>) IF T
  call new BidPortfolio{}.cyclus::BidPortfolio::AddConstraint(CapacityConstraint<Material>{min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),this.throughput_)}) IF !(cyclus::cy_eps-min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & this.quantize_ > 0
  call new BidPortfolio{}.cyclus::BidPortfolio::AddConstraint(CapacityConstraint<Material>{min(this.buf_.qty_,this.throughput_)}) IF !(cyclus::cy_eps-min(this.buf_.qty_,this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & !this.quantize_ > 0
  add @set<boost::shared_ptr<BidPortfolio<Material>>>.add(new BidPortfolio{}) IF !(cyclus::cy_eps-min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & this.quantize_ > 0 | !(cyclus::cy_eps-min(this.buf_.qty_,this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & !this.quantize_ > 0
  [for this.commods_] [for $0[elem(this.commods_)]] call this.package_.cyclus::Package::GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)) IF !(cyclus::cy_eps-min(this.buf_.qty_,this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & !this.quantize_ > 0
  [for this.commods_] [for $0[elem(this.commods_)]] call this.transport_unit_.cyclus::TransportUnit::MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})) IF !(cyclus::cy_eps-min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & this.quantize_ > 0
  [for this.commods_] [for $0[elem(this.commods_)]] call this.transport_unit_.cyclus::TransportUnit::MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))) IF !(cyclus::cy_eps-min(this.buf_.qty_,this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & !this.quantize_ > 0
  [for this.commods_] [for $0[elem(this.commods_)]] call this.buf_.cyclus::toolkit::ResBuf::Peek() IF !(cyclus::cy_eps-min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & this.quantize_ > 0 | !(cyclus::cy_eps-min(this.buf_.qty_,this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & !this.quantize_ > 0
  [for this.commods_] [for $0[elem(this.commods_)]] [for phi{take(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)),this.transport_unit_.MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))))|take(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_},this.transport_unit_.MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})))|this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_))|vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_}}] call new BidPortfolio{}.cyclus::BidPortfolio::AddBid(elem($0[elem(this.commods_)]), cyclus::Material::CreateUntracked(elem(phi{take(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)),this.transport_unit_.MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))))|take(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_},this.transport_unit_.MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})))|this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_))|vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_}}),elem($0[elem(this.commods_)]).target_.comp()), this, true, std::numeric_limits<double>::quiet_NaN()) IF !(cyclus::cy_eps-min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & this.ignore_comp_ & this.quantize_ > 0
  [for this.commods_] [for $0[elem(this.commods_)]] [for phi{take(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)),this.transport_unit_.MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))))|take(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_},this.transport_unit_.MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})))|this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_))|vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_}}] call new BidPortfolio{}.cyclus::BidPortfolio::AddBid(elem($0[elem(this.commods_)]), cyclus::Material::CreateUntracked(elem(phi{take(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)),this.transport_unit_.MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))))|take(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_},this.transport_unit_.MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})))|this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_))|vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_}}),elem($0[elem(this.commods_)]).target_.comp()), this, false, std::numeric_limits<double>::quiet_NaN()) IF !(cyclus::cy_eps-min(this.buf_.qty_,this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & this.ignore_comp_ & !this.quantize_ > 0
  [for this.commods_] [for $0[elem(this.commods_)]] [for phi{take(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)),this.transport_unit_.MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))))|take(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_},this.transport_unit_.MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})))|this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_))|vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_}}] call new BidPortfolio{}.cyclus::BidPortfolio::AddBid(elem($0[elem(this.commods_)]), cyclus::Material::CreateUntracked(elem(phi{take(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)),this.transport_unit_.MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))))|take(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_},this.transport_unit_.MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})))|this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_))|vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_}}),this.buf_.Peek().comp()), this, true, std::numeric_limits<double>::quiet_NaN()) IF !(cyclus::cy_eps-min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & !this.ignore_comp_ & this.quantize_ > 0
  [for this.commods_] [for $0[elem(this.commods_)]] [for phi{take(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)),this.transport_unit_.MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))))|take(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_},this.transport_unit_.MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})))|this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_))|vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_}}] call new BidPortfolio{}.cyclus::BidPortfolio::AddBid(elem($0[elem(this.commods_)]), cyclus::Material::CreateUntracked(elem(phi{take(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)),this.transport_unit_.MaxShippablePackages(size(this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_)))))|take(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_},this.transport_unit_.MaxShippablePackages(size(vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_})))|this.package_.GetFillMass(min(elem($0[elem(this.commods_)]).target_.qty_,this.buf_.qty_,this.throughput_))|vector{floor((min((floor((this.buf_.qty_/this.quantize_))*this.quantize_),elem($0[elem(this.commods_)]).target_.qty_,this.throughput_)/this.quantize_)),this.quantize_}}),this.buf_.Peek().comp()), this, false, std::numeric_limits<double>::quiet_NaN()) IF !(cyclus::cy_eps-min(this.buf_.qty_,this.throughput_)) > 0 & !(cyclus::cy_eps-this.buf_.qty_) > 0 & !empty(this.buf_.rs_) & has($0,elem(this.commods_)) & !this.ignore_comp_ & !this.quantize_ > 0
fn cyclus::toolkit::MatlSellPolicy::GetMatlTrades
  call this.transport_unit_.cyclus::TransportUnit::MaxShippablePackages(size($0)) IF T
  [for $0] call this.buf_.cyclus::toolkit::ResBuf::Pop(elem($0).amt, cyclus::cy_eps_rsrc) IF ~ >= 1
  [for $0] call this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).cyclus::Resource::Package(this.package_) IF !this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & ~ >= 1
  [for $0] call this.buf_.cyclus::toolkit::ResBuf::Push(this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc)) IF !(cyclus::cy_eps_rsrc-this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).qty_') >= 0 & !this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & ~ >= 1
  [for $0] call this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)[0].cyclus::Material::Transmute(elem($0).request.target_.comp()) IF !elem($0).request.target_.comp() == this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)[0].comp() & !empty(this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)) & !this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & this.ignore_comp_ & ~ >= 1
  [for $0] call cyclus::Material::CreateUntracked(0,this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).comp()).cyclus::Material::Transmute(elem($0).request.target_.comp()) IF !cyclus::Material::CreateUntracked(0,this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).comp()).comp() == elem($0).request.target_.comp() & empty(this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)) & !this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & this.ignore_comp_ & ~ >= 1
  [for $0] call this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).cyclus::Material::Transmute(elem($0).request.target_.comp()) IF !elem($0).request.target_.comp() == this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).comp() & this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & this.ignore_comp_ & ~ >= 1
  [for $0] add $1.add(pair(elem($0),this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)[0])) IF !empty(this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)) & !this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & ~ >= 1
  [for $0] add $1.add(pair(elem($0),cyclus::Material::CreateUntracked(0,this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).comp()))) IF empty(this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)) & !this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & ~ >= 1
  [for $0] add $1.add(pair(elem($0),this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc))) IF this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & ~ >= 1
  carry (fold($0; 0; !empty(this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)) & !this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_ & ~ >= 1:(~-1) ; !~ >= 1 | empty(this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).Package(this.package_)) | this.buf_.Pop(elem($0).amt,cyclus::cy_eps_rsrc).package_name_ == this.package_.name_:~)+this.transport_unit_.MaxShippablePackages(size($0)))
  seq 1<3 2<3
fn cyclus::toolkit::MatlSellPolicy::Excl
  ret return(true) IF this.quantize_ > 0
