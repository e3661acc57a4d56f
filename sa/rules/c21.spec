fn cyclus::Bid<cyclus::Material>::Create | cyclus::Request<cyclus::Material> *; boost::shared_ptr<cyclus::Material>; cyclus::Trader *; boost::shared_ptr<cyclus::BidPortfolio<cyclus::Material>>; bool; double
  ret return(new Bid{$0,$1,$2,$3,$4,$5}) IF T
fn cyclus::Bid<cyclus::Material>::request | const
  ret return(this.request_) IF T
fn cyclus::Bid<cyclus::Material>::offer | const
  ret return(this.offer_) IF T
fn cyclus::Bid<cyclus::Material>::bidder | const
  ret return(this.bidder_) IF T
fn cyclus::Bid<cyclus::Material>::portfolio | 
  ret return(this.portfolio_.lock()) IF T
fn cyclus::Bid<cyclus::Material>::exclusive | const
  ret return(this.exclusive_) IF T
fn cyclus::Bid<cyclus::Material>::preference | const
  ret return(this.preference_) IF T
fn cyclus::Bid<cyclus::Material>::Bid | cyclus::Request<cyclus::Material> *; boost::shared_ptr<cyclus::Material>; cyclus::Trader *; boost::shared_ptr<cyclus::BidPortfolio<cyclus::Material>>; bool; double; boost::shared_ptr<cyclus::Package>
  default 6 = cyclus::Package::unpackaged()
  set this.request_($0) IF T
  set this.offer_($1) IF T
  set this.bidder_($2) IF T
  set this.portfolio_($3) IF T
  set this.exclusive_($4) IF T
  set this.preference_($5) IF T
  set this.package_($6) IF T
fn cyclus::BidPortfolio<cyclus::Material>::BidPortfolio | 
  set this.bids_(set{}) IF T
  set this.constraints_(set{}) IF T
  set this.bidder_(NULL) IF T
fn cyclus::BidPortfolio<cyclus::Material>::~BidPortfolio | 
  [for this.bids_] delete delete(elem(this.bids_)) IF elem(this.bids_)
fn cyclus::BidPortfolio<cyclus::Material>::AddBid | cyclus::Request<cyclus::Material> *; boost::shared_ptr<cyclus::Material>; cyclus::Trader *; bool; double
  call cyclus::Bid::Create($0, $1, $2, this.shared_from_this(), $3, $4) IF T
  set this.bidder_(cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,$4).bidder_) IF !this.bidder_
  throw cyclus::KeyError() IF !cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,$4).bidder_ == this.bidder_ & this.bidder_
  add this.bids_.add(cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,$4)) IF $1.qty_ > 0 & !this.bidder_ | $1.qty_ > 0 & cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,$4).bidder_ == this.bidder_
  ret return(cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,$4)) IF $1.qty_ > 0 & !this.bidder_ | $1.qty_ > 0 & cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,$4).bidder_ == this.bidder_
  throw cyclus::ValueError() IF !$1.qty_ > 0 & !this.bidder_ | !$1.qty_ > 0 & cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,$4).bidder_ == this.bidder_
fn cyclus::BidPortfolio<cyclus::Material>::AddBid | cyclus::Request<cyclus::Material> *; boost::shared_ptr<cyclus::Material>; cyclus::Trader *; bool
  default 3 = false
  call cyclus::Bid::Create($0, $1, $2, this.shared_from_this(), $3, std::numeric_limits<double>::quiet_NaN()) IF T
  set this.bidder_(cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,std::numeric_limits<double>::quiet_NaN()).bidder_) IF !this.bidder_
  throw cyclus::KeyError() IF !cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,std::numeric_limits<double>::quiet_NaN()).bidder_ == this.bidder_ & this.bidder_
  add this.bids_.add(cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,std::numeric_limits<double>::quiet_NaN())) IF $1.qty_ > 0 & !this.bidder_ | $1.qty_ > 0 & cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,std::numeric_limits<double>::quiet_NaN()).bidder_ == this.bidder_
  ret return(cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,std::numeric_limits<double>::quiet_NaN())) IF $1.qty_ > 0 & !this.bidder_ | $1.qty_ > 0 & cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,std::numeric_limits<double>::quiet_NaN()).bidder_ == this.bidder_
  throw cyclus::ValueError() IF !$1.qty_ > 0 & !this.bidder_ | !$1.qty_ > 0 & cyclus::Bid::Create($0,$1,$2,this.shared_from_this(),$3,std::numeric_limits<double>::quiet_NaN()).bidder_ == this.bidder_
fn cyclus::BidPortfolio<cyclus::Material>::AddConstraint | const cyclus::CapacityConstraint<cyclus::Material> &
  add this.constraints_.add($0) IF !has(this.constraints_,$0)
fn cyclus::BidPortfolio<cyclus::Material>::bidder | const
  ret return(this.bidder_) IF T
fn cyclus::BidPortfolio<cyclus::Material>::commodity | const
  ret return("") IF T
fn cyclus::BidPortfolio<cyclus::Material>::bids | const
  ret return(this.bids_) IF T
fn cyclus::BidPortfolio<cyclus::Material>::constraints | const
  ret return(this.constraints_) IF T
fn cyclus::BidPortfolio<cyclus::Material>::VerifyResponder_ | cyclus::Bid<cyclus::Material> *
  set this.bidder_($0.bidder_) IF !this.bidder_
  throw cyclus::KeyError() IF !$0.bidder_ == this.bidder_ & this.bidder_
fn cyclus::BidPortfolio<cyclus::Material>::VerifyCommodity_ | const cyclus::Bid<cyclus::Material> *
fn cyclus::Converter<cyclus::Material>::operator== | cyclus::Converter<cyclus::Material> & const
  ret return(false) IF T
fn cyclus::TrivialConverter<cyclus::Material>::convert | boost::shared_ptr<cyclus::Material>; const cyclus::Arc *; const cyclus::ExchangeTranslationContext<cyclus::Material> * const
  default 1 = NULL
  default 2 = NULL
  ret return($0.qty_) IF T
fn cyclus::TrivialConverter<cyclus::Material>::operator== | cyclus::Converter<cyclus::Material> & const
  ret return(true) IF dyn<cyclus::TrivialConverter<cyclus::Material>>($0)
fn cyclus::CapacityConstraint<cyclus::Material>::CapacityConstraint | double; boost::shared_ptr<cyclus::Converter<cyclus::Material>>
  set this.capacity_($0) IF T
  set this.converter_($1) IF T
  set cyclus::CapacityConstraint<cyclus::Material>::next_id_((cyclus::CapacityConstraint<cyclus::Material>::next_id_+1)) IF T
  set this.id_(cyclus::CapacityConstraint<cyclus::Material>::next_id_) IF T
  throw cyclus::ValueError() IF !$0 > 0
fn cyclus::CapacityConstraint<cyclus::Material>::CapacityConstraint | double
  set this.capacity_($0) IF T
  set cyclus::CapacityConstraint<cyclus::Material>::next_id_((cyclus::CapacityConstraint<cyclus::Material>::next_id_+1)) IF T
  set this.id_(cyclus::CapacityConstraint<cyclus::Material>::next_id_) IF T
  throw cyclus::ValueError() IF !$0 > 0
  set this.converter_(new TrivialConverter{}) IF T
fn cyclus::CapacityConstraint<cyclus::Material>::CapacityConstraint | const cyclus::CapacityConstraint<cyclus::Material> &
  set this.capacity_($0.capacity_) IF T
  set this.converter_($0.converter_) IF T
  set cyclus::CapacityConstraint<cyclus::Material>::next_id_((cyclus::CapacityConstraint<cyclus::Material>::next_id_+1)) IF T
  set this.id_(cyclus::CapacityConstraint<cyclus::Material>::next_id_) IF T
fn cyclus::CapacityConstraint<cyclus::Material>::capacity | const
  ret return(this.capacity_) IF T
fn cyclus::CapacityConstraint<cyclus::Material>::converter | const
  ret return(this.converter_) IF T
fn cyclus::CapacityConstraint<cyclus::Material>::convert | boost::shared_ptr<cyclus::Material>; const cyclus::Arc *; const cyclus::ExchangeTranslationContext<cyclus::Material> * const
  default 1 = NULL
  default 2 = NULL
  ret return(this.converter_.convert($0,$1,$2)) IF T
fn cyclus::CapacityConstraint<cyclus::Material>::id | const
  ret return(this.id_) IF T
fn cyclus::Request<cyclus::Material>::Create | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; boost::shared_ptr<cyclus::RequestPortfolio<cyclus::Material>>; std::basic_string<char>; double; bool; std::function<double (boost::shared_ptr<cyclus::Material>)>
  ret return(new Request{$0,$1,$2,$3,$4,$5,$6}) IF T
fn cyclus::Request<cyclus::Material>::Create | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; boost::shared_ptr<cyclus::RequestPortfolio<cyclus::Material>>; std::basic_string<char>; double; bool
  default 3 = ""
  default 4 = cyclus::kDefaultPref
  default 5 = false
  ret return(new Request{$0,$1,$2,$3,$4,$5,NULL}) IF T
fn cyclus::Request<cyclus::Material>::Create | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; std::basic_string<char>; double; bool; std::function<double (boost::shared_ptr<cyclus::Material>)>
  ret return(new Request{$0,$1,$2,$3,$4,$5}) IF T
fn cyclus::Request<cyclus::Material>::Create | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; std::basic_string<char>; double; bool
  default 2 = ""
  default 3 = cyclus::kDefaultPref
  default 4 = false
  ret return(new Request{$0,$1,$2,$3,$4,NULL}) IF T
fn cyclus::Request<cyclus::Material>::target | const
  ret return(this.target_) IF T
fn cyclus::Request<cyclus::Material>::requester | const
  ret return(this.requester_) IF T
fn cyclus::Request<cyclus::Material>::commodity | const
  ret return(this.commodity_) IF T
fn cyclus::Request<cyclus::Material>::preference | const
  ret return(this.preference_) IF T
fn cyclus::Request<cyclus::Material>::portfolio | const
  ret return(this.portfolio_.lock()) IF T
fn cyclus::Request<cyclus::Material>::exclusive | const
  ret return(this.exclusive_) IF T
fn cyclus::Request<cyclus::Material>::cost_function | const
  ret return(this.cost_function_) IF T
fn cyclus::Request<cyclus::Material>::Request | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; std::basic_string<char>; double; bool; std::function<double (boost::shared_ptr<cyclus::Material>)>
  set this.target_($0) IF T
  set this.requester_($1) IF T
  set this.preference_($3) IF T
  set this.commodity_($2) IF T
  set this.portfolio_(weak_ptr{}) IF T
  set this.exclusive_($4) IF T
  set this.cost_function_($5) IF T
fn cyclus::Request<cyclus::Material>::Request | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; std::basic_string<char>; double; bool
  default 2 = ""
  default 3 = cyclus::kDefaultPref
  default 4 = false
  set this.target_($0) IF T
  set this.requester_($1) IF T
  set this.preference_($3) IF T
  set this.commodity_($2) IF T
  set this.portfolio_(weak_ptr{}) IF T
  set this.exclusive_($4) IF T
  set this.cost_function_(NULL) IF T
fn cyclus::Request<cyclus::Material>::Request | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; boost::shared_ptr<cyclus::RequestPortfolio<cyclus::Material>>; std::basic_string<char>; double; bool; std::function<double (boost::shared_ptr<cyclus::Material>)>
  set this.target_($0) IF T
  set this.requester_($1) IF T
  set this.preference_($4) IF T
  set this.commodity_($3) IF T
  set this.portfolio_($2) IF T
  set this.exclusive_($5) IF T
  set this.cost_function_($6) IF T
fn cyclus::Request<cyclus::Material>::Request | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; boost::shared_ptr<cyclus::RequestPortfolio<cyclus::Material>>; std::basic_string<char>; double; bool
  default 3 = ""
  default 4 = cyclus::kDefaultPref
  default 5 = false
  set this.target_($0) IF T
  set this.requester_($1) IF T
  set this.preference_($4) IF T
  set this.commodity_($3) IF T
  set this.portfolio_($2) IF T
  set this.exclusive_($5) IF T
  set this.cost_function_(NULL) IF T
fn cyclus::QtyCoeffConverter<cyclus::Material>::QtyCoeffConverter | const std::map<cyclus::Request<cyclus::Material> *, double> &
  set this.coeffs($0) IF T
fn cyclus::QtyCoeffConverter<cyclus::Material>::convert | boost::shared_ptr<cyclus::Material>; const cyclus::Arc *; const cyclus::ExchangeTranslationContext<cyclus::Material> * const
  ret return(($0.qty_*this.coeffs[$2.node_to_request[$1.unode_.lock()]])) IF T
fn cyclus::QtyCoeffConverter<cyclus::Material>::operator== | cyclus::Converter<cyclus::Material> & const
  ret return(true) IF dyn<cyclus::QtyCoeffConverter<cyclus::Material>>($0) & dyn<cyclus::QtyCoeffConverter<cyclus::Material>>($0).coeffs == this.coeffs
fn cyclus::RequestPortfolio<cyclus::Material>::RequestPortfolio | 
  set this.requests_(vector{}) IF T
  set this.mass_coeffs_(map{}) IF T
  set this.constraints_(set{}) IF T
  set this.qty_(0) IF T
  set this.requester_(NULL) IF T
fn cyclus::RequestPortfolio<cyclus::Material>::~RequestPortfolio | 
  [for this.requests_] delete delete(elem(this.requests_)) IF elem(this.requests_)
fn cyclus::RequestPortfolio<cyclus::Material>::AddRequest | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; std::basic_string<char>; double; bool; std::function<double (boost::shared_ptr<cyclus::Material>)>
  call cyclus::Request::Create($0, $1, this.shared_from_this(), $2, $3, $4, $5) IF T
  set this.requester_(cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5).requester_) IF !this.requester_
  throw cyclus::KeyError() IF !cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5).requester_ == this.requester_ & this.requester_
  add this.requests_.add(cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5)) IF !this.requester_ | cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5).requester_ == this.requester_
  put this.mass_coeffs_.put(cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5), 1) IF !this.requester_ | cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5).requester_ == this.requester_
  set this.qty_(($0.qty_+this.qty_)) IF !this.requester_ | cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5).requester_ == this.requester_
  ret return(cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5)) IF !this.requester_ | cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,$5).requester_ == this.requester_
fn cyclus::RequestPortfolio<cyclus::Material>::AddRequest | boost::shared_ptr<cyclus::Material>; cyclus::Trader *; std::basic_string<char>; double; bool
  default 2 = ""
  default 3 = cyclus::kDefaultPref
  default 4 = false
  call cyclus::Request::Create($0, $1, this.shared_from_this(), $2, $3, $4, NULL) IF T
  set this.requester_(cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL).requester_) IF !this.requester_
  throw cyclus::KeyError() IF !cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL).requester_ == this.requester_ & this.requester_
  add this.requests_.add(cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL)) IF !this.requester_ | cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL).requester_ == this.requester_
  put this.mass_coeffs_.put(cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL), 1) IF !this.requester_ | cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL).requester_ == this.requester_
  set this.qty_(($0.qty_+this.qty_)) IF !this.requester_ | cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL).requester_ == this.requester_
  ret return(cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL)) IF !this.requester_ | cyclus::Request::Create($0,$1,this.shared_from_this(),$2,$3,$4,NULL).requester_ == this.requester_
fn cyclus::RequestPortfolio<cyclus::Material>::AddMutualReqs | const std::vector<cyclus::Request<cyclus::Material> *> &
  [for $0] put this.mass_coeffs_.put(elem($0), ((fold($0; 0; (elem($0).target_.qty_+~))/size($0))/elem($0).target_.qty_)) IF T
  set this.qty_(((fold($0; 0; (elem($0).target_.qty_+~))/size($0))-fold($0; 0; (elem($0).target_.qty_+~))+this.qty_)) IF T
fn cyclus::RequestPortfolio<cyclus::Material>::AddConstraint | const cyclus::CapacityConstraint<cyclus::Material> &
  add this.constraints_.add($0) IF !has(this.constraints_,$0)
fn cyclus::RequestPortfolio<cyclus::Material>::requester | const
  ret return(this.requester_) IF T
fn cyclus::RequestPortfolio<cyclus::Material>::qty | const
  ret return(this.qty_) IF T
fn cyclus::RequestPortfolio<cyclus::Material>::requests | const
  ret return(this.requests_) IF T
fn cyclus::RequestPortfolio<cyclus::Material>::constraints | const
  ret return(this.constraints_) IF T
fn cyclus::RequestPortfolio<cyclus::Material>::qty_converter | 
  ret return(new QtyCoeffConverter{this.mass_coeffs_}) IF T
fn cyclus::RequestPortfolio<cyclus::Material>::VerifyRequester_ | const cyclus::Request<cyclus::Material> *
  set this.requester_($0.requester_) IF !this.requester_
  throw cyclus::KeyError() IF !$0.requester_ == this.requester_ & this.requester_
fn cyclus::Trade<cyclus::Material>::Trade | 
  set this.amt(0) IF T
  set this.price(0) IF T
fn cyclus::Trade<cyclus::Material>::Trade | cyclus::Request<cyclus::Material> *; cyclus::Bid<cyclus::Material> *; double
  set this.request($0) IF T
  set this.bid($1) IF T
  set this.amt($2) IF T
  set this.price(0) IF T
fn cyclus::SumQty<cyclus::Material> | double; cyclus::Request<cyclus::Material> *
  ret return(($0+$1.target_.qty_)) IF T
fn cyclus::GetTraderPrototype
  ret return($0.manager_.prototype_) IF T
fn cyclus::GetTraderSpec
  ret return($0.manager_.spec_) IF T
fn cyclus::Trader::Trader
  set this.manager_($0) IF T
fn cyclus::Trader::manager
  ret return(this.manager_) IF T
fn cyclus::Trader::GetMatlRequests
  ret return(set{}) IF T
fn cyclus::Trader::GetProductRequests
  ret return(set{}) IF T
fn cyclus::Trader::GetMatlBids | std::map<std::basic_string<char>, std::vector<cyclus::Request<cyclus::Material> *>> &
  ret return(set{}) IF T
fn cyclus::Trader::GetProductBids | std::map<std::basic_string<char>, std::vector<cyclus::Request<cyclus::Product> *>> &
  ret return(set{}) IF T
fn cyclus::Trader::AdjustMatlPrefs
fn cyclus::Trader::AdjustProductPrefs
fn cyclus::Trader::GetMatlTrades
fn cyclus::Trader::GetProductTrades
fn cyclus::Trader::AcceptMatlTrades
fn cyclus::Trader::AcceptProductTrades
fn cyclus::Trader::GetMatlBids | const std::map<std::basic_string<char>, std::vector<cyclus::Request<cyclus::Material> *>> &
  ret return(set{}) IF T
fn cyclus::Trader::GetProductBids | const std::map<std::basic_string<char>, std::vector<cyclus::Request<cyclus::Product> *>> &
  ret return(set{}) IF T
fn cyclus::Agent::AdjustMatlPrefs
fn cyclus::Agent::AdjustProductPrefs
fn cyclus::Facility::GetMatlRequests
  ret return(set{}) IF T
fn cyclus::Facility::GetProductRequests
  ret return(set{}) IF T
fn cyclus::Facility::GetMatlBids
  ret return(set{}) IF T
fn cyclus::Facility::GetProductBids
  ret return(set{}) IF T
fn cyclus::Facility::AdjustMatlPrefs
fn cyclus::Facility::AdjustProductPrefs
fn cyclus::Facility::GetMatlTrades
fn cyclus::Facility::GetProductTrades
fn cyclus::Facility::AcceptMatlTrades
fn cyclus::Facility::AcceptProductTrades
init cyclus::kDefaultPref = 1
