fn cyclus::ResourceExchange<cyclus::Material>::ResourceExchange | cyclus::Context *
  set this.traders_(set{}) IF T
  set this.ex_ctx_(ExchangeContext<Material>{}) IF T
  set this.sim_ctx_($0) IF T
fn cyclus::ResourceExchange<cyclus::Material>::ex_ctx | 
  ret return(this.ex_ctx_) IF T
fn cyclus::ResourceExchange<cyclus::Material>::AddAllRequests | 
  [for this.sim_ctx_.traders_] add this.traders_.add(elem(this.sim_ctx_.traders_)) IF empty(this.traders_) & !has(this.traders_,elem(this.sim_ctx_.traders_))
  [for phi{fold(this.sim_ctx_.traders_; this.traders_; ~')|this.traders_}] [for elem(phi{fold(this.sim_ctx_.traders_; this.traders_; ~')|this.traders_}).GetMatlRequests()] call this.ex_ctx_.cyclus::ExchangeContext::AddRequestPortfolio(elem(elem(phi{fold(this.sim_ctx_.traders_; this.traders_; ~')|this.traders_}).GetMatlRequests())) IF T
fn cyclus::ResourceExchange<cyclus::Material>::AddAllBids | 
  [for this.sim_ctx_.traders_] add this.traders_.add(elem(this.sim_ctx_.traders_)) IF empty(this.traders_) & !has(this.traders_,elem(this.sim_ctx_.traders_))
  [for phi{fold(this.sim_ctx_.traders_; this.traders_; ~')|this.traders_}] [for elem(phi{fold(this.sim_ctx_.traders_; this.traders_; ~')|this.traders_}).GetMatlBids(this.ex_ctx_.commod_requests)] call this.ex_ctx_.cyclus::ExchangeContext::AddBidPortfolio(elem(elem(phi{fold(this.sim_ctx_.traders_; this.traders_; ~')|this.traders_}).GetMatlBids(this.ex_ctx_.commod_requests))) IF T
fn cyclus::ResourceExchange<cyclus::Material>::AdjustAll | 
  [for this.sim_ctx_.traders_] add this.traders_.add(elem(this.sim_ctx_.traders_)) IF empty(this.traders_) & !has(this.traders_,elem(this.sim_ctx_.traders_))
  [for this.ex_ctx_.requesters] call elem(this.ex_ctx_.requesters).cyclus::Trader::AdjustMatlPrefs(this.ex_ctx_.trader_prefs[elem(this.ex_ctx_.requesters)]) IF T
  [for this.ex_ctx_.requesters] [for while] call ~.cyclus::Agent::AdjustMatlPrefs(~this.ex_ctx_.trader_prefs[elem(this.ex_ctx_.requesters)]) IF ~
  carry fold(while; elem(this.ex_ctx_.requesters).manager_.parent_; ~.parent_)
  leave !~
  seq 0<1 0<2 1<2
fn cyclus::ResourceExchange<cyclus::Material>::Empty | 
  ret return(empty(this.ex_ctx_.bids_by_request)) IF T
fn cyclus::ResourceExchange<cyclus::Material>::InitTraders | 
  [for this.sim_ctx_.traders_] add this.traders_.add(elem(this.sim_ctx_.traders_)) IF empty(this.traders_) & !has(this.traders_,elem(this.sim_ctx_.traders_))
fn cyclus::ResourceExchange<cyclus::Material>::AddRequests_ | cyclus::Trader *
  [for $0.GetMatlRequests()] call this.ex_ctx_.cyclus::ExchangeContext::AddRequestPortfolio(elem($0.GetMatlRequests())) IF T
fn cyclus::ResourceExchange<cyclus::Material>::AddBids_ | cyclus::Trader *
  [for $0.GetMatlBids(this.ex_ctx_.commod_requests)] call this.ex_ctx_.cyclus::ExchangeContext::AddBidPortfolio(elem($0.GetMatlBids(this.ex_ctx_.commod_requests))) IF T
fn cyclus::ResourceExchange<cyclus::Material>::AdjustPrefs_ | cyclus::Trader *
  call $0.cyclus::Trader::AdjustMatlPrefs(this.ex_ctx_.trader_prefs[$0]) IF T
  [for while] call ~.cyclus::Agent::AdjustMatlPrefs(~this.ex_ctx_.trader_prefs[$0]) IF ~
  carry fold(while; $0.manager_.parent_; ~.parent_)
  leave !~
  seq 0<1
fn cyclus::ResourceExchange<cyclus::Material>::trader_compare::operator() | cyclus::Trader *; cyclus::Trader * const
  ret return(true) IF !$0.manager_.id_ == $1.manager_.id_ & !($0.manager_.id_-$1.manager_.id_) >= 0 | $0.manager_.id_ == $1.manager_.id_ & !($0-$1) >= 0
fn cyclus::ExchangeContext<cyclus::Material>::AddRequestPortfolio | const boost::shared_ptr<cyclus::RequestPortfolio<cyclus::Material>>
  add this.requests.add($0) IF T
  [for $0.requests_] add this.requesters.add(elem($0.requests_).requester_) IF !has(this.requesters,elem($0.requests_).requester_)
  [for $0.requests_] add this.commod_requests[elem($0.requests_).commodity_].add(elem($0.requests_)) IF T
fn cyclus::ExchangeContext<cyclus::Material>::AddRequest | cyclus::Request<cyclus::Material> *
  add this.requesters.add($0.requester_) IF !has(this.requesters,$0.requester_)
  add this.commod_requests[$0.commodity_].add($0) IF T
fn cyclus::ExchangeContext<cyclus::Material>::AddBidPortfolio | const boost::shared_ptr<cyclus::BidPortfolio<cyclus::Material>>
  add this.bids.add($0) IF T
  [for $0.bids_] add this.bidders.add(elem($0.bids_).bidder_) IF !has(this.bidders,elem($0.bids_).bidder_)
  [for $0.bids_] add this.bids_by_request[elem($0.bids_).request_].add(elem($0.bids_)) IF T
  [for $0.bids_] put this.trader_prefs[elem($0.bids_).request_.requester_][elem($0.bids_).request_].put(elem($0.bids_), elem($0.bids_).request_.preference_) IF !has(this.trader_prefs[elem($0.bids_).request_.requester_][elem($0.bids_).request_],elem($0.bids_)) & std::isnan(elem($0.bids_).preference_)
  [for $0.bids_] put this.trader_prefs[elem($0.bids_).request_.requester_][elem($0.bids_).request_].put(elem($0.bids_), elem($0.bids_).preference_) IF !has(this.trader_prefs[elem($0.bids_).request_.requester_][elem($0.bids_).request_],elem($0.bids_)) & !std::isnan(elem($0.bids_).preference_)
fn cyclus::ExchangeContext<cyclus::Material>::AddBid | cyclus::Bid<cyclus::Material> *
  add this.bidders.add($0.bidder_) IF !has(this.bidders,$0.bidder_)
  add this.bids_by_request[$0.request_].add($0) IF T
  put this.trader_prefs[$0.request_.requester_][$0.request_].put($0, $0.request_.preference_) IF !has(this.trader_prefs[$0.request_.requester_][$0.request_],$0) & std::isnan($0.preference_)
  put this.trader_prefs[$0.request_.requester_][$0.request_].put($0, $0.preference_) IF !has(this.trader_prefs[$0.request_.requester_][$0.request_],$0) & !std::isnan($0.preference_)
fn cyclus::ExchangeTranslator<cyclus::Material>::ExchangeTranslator | cyclus::ExchangeContext<cyclus::Material> *
  set this.xlation_ctx_(ExchangeTranslationContext<Material>{}) IF T
  set this.ex_ctx_($0) IF T
fn cyclus::ExchangeTranslator<cyclus::Material>::Translate | 
  [for this.ex_ctx_.requests] call elem(this.ex_ctx_.requests).cyclus::RequestPortfolio::qty_converter() IF T
  [for this.ex_ctx_.requests] call elem(this.ex_ctx_.requests).cyclus::RequestPortfolio::AddConstraint(CapacityConstraint<Material>{elem(this.ex_ctx_.requests).qty_,elem(this.ex_ctx_.requests).qty_converter()}) IF T
  [for this.ex_ctx_.requests] [for elem(this.ex_ctx_.requests).requests_] call new RequestGroup{elem(this.ex_ctx_.requests).qty_}.cyclus::RequestGroup::AddExchangeNode(new ExchangeNode{elem(elem(this.ex_ctx_.requests).requests_).target_.qty_,elem(elem(this.ex_ctx_.requests).requests_).exclusive_,elem(elem(this.ex_ctx_.requests).requests_).commodity_,elem(elem(this.ex_ctx_.requests).requests_).requester_.manager_.id_}) IF T
  [for this.ex_ctx_.requests] [for elem(this.ex_ctx_.requests).requests_] put this.xlation_ctx_.request_to_node.put(elem(elem(this.ex_ctx_.requests).requests_), new ExchangeNode{elem(elem(this.ex_ctx_.requests).requests_).target_.qty_,elem(elem(this.ex_ctx_.requests).requests_).exclusive_,elem(elem(this.ex_ctx_.requests).requests_).commodity_,elem(elem(this.ex_ctx_.requests).requests_).requester_.manager_.id_}) IF T
  [for this.ex_ctx_.requests] [for elem(this.ex_ctx_.requests).requests_] put this.xlation_ctx_.node_to_request.put(new ExchangeNode{elem(elem(this.ex_ctx_.requests).requests_).target_.qty_,elem(elem(this.ex_ctx_.requests).requests_).exclusive_,elem(elem(this.ex_ctx_.requests).requests_).commodity_,elem(elem(this.ex_ctx_.requests).requests_).requester_.manager_.id_}, elem(elem(this.ex_ctx_.requests).requests_)) IF T
  [for this.ex_ctx_.requests] [for elem(this.ex_ctx_.requests).constraints_'] call new RequestGroup{elem(this.ex_ctx_.requests).qty_}.cyclus::ExchangeNodeGroup::AddCapacity(elem(elem(this.ex_ctx_.requests).constraints_').capacity_) IF T
  [for this.ex_ctx_.requests] call new ExchangeGraph{}.cyclus::ExchangeGraph::AddRequestGroup(new RequestGroup{elem(this.ex_ctx_.requests).qty_}) IF T
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] call new ExchangeNodeGroup{}.cyclus::ExchangeNodeGroup::AddExchangeNode(new ExchangeNode{elem(elem(this.ex_ctx_.bids).bids_).offer_.qty_,elem(elem(this.ex_ctx_.bids).bids_).exclusive_,elem(elem(this.ex_ctx_.bids).bids_).request_.commodity_,elem(elem(this.ex_ctx_.bids).bids_).bidder_.manager_.id_}) IF T
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] put this.xlation_ctx_.bid_to_node.put(elem(elem(this.ex_ctx_.bids).bids_), new ExchangeNode{elem(elem(this.ex_ctx_.bids).bids_).offer_.qty_,elem(elem(this.ex_ctx_.bids).bids_).exclusive_,elem(elem(this.ex_ctx_.bids).bids_).request_.commodity_,elem(elem(this.ex_ctx_.bids).bids_).bidder_.manager_.id_}) IF T
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] put this.xlation_ctx_.node_to_bid.put(new ExchangeNode{elem(elem(this.ex_ctx_.bids).bids_).offer_.qty_,elem(elem(this.ex_ctx_.bids).bids_).exclusive_,elem(elem(this.ex_ctx_.bids).bids_).request_.commodity_,elem(elem(this.ex_ctx_.bids).bids_).bidder_.manager_.id_}, elem(elem(this.ex_ctx_.bids).bids_)) IF T
  [for this.ex_ctx_.bids] [for @map<boost::shared_ptr<Material>, vector<boost::shared_ptr<ExchangeNode>>>] call new ExchangeNodeGroup{}.cyclus::ExchangeNodeGroup::AddExclGroup(elem(@map<boost::shared_ptr<Material>, vector<boost::shared_ptr<ExchangeNode>>>).second) IF T
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).constraints_] call new ExchangeNodeGroup{}.cyclus::ExchangeNodeGroup::AddCapacity(elem(elem(this.ex_ctx_.bids).constraints_).capacity_) IF T
  [for this.ex_ctx_.bids] call new ExchangeGraph{}.cyclus::ExchangeGraph::AddSupplyGroup(new ExchangeNodeGroup{}) IF T
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] throw cyclus::ValueError() IF this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] == 0 & this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] >= 0
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] call Arc{this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_],this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)]}.cyclus::Arc::pref(this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)]) IF !this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] == 0 & this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] >= 0
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] [for elem(elem(this.ex_ctx_.bids).bids_).portfolio_.lock().constraints_] add ~this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)].unit_capacities[Arc{this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_],this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)]}].add((elem(elem(elem(this.ex_ctx_.bids).bids_).portfolio_.lock().constraints_).converter_.convert(elem(elem(this.ex_ctx_.bids).bids_).offer_,Arc{this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_],this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)]},this.xlation_ctx_)/elem(elem(this.ex_ctx_.bids).bids_).offer_.qty_)) IF !this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] == 0 & this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] >= 0
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] [for elem(elem(this.ex_ctx_.bids).bids_).request_.portfolio_.lock().constraints_] add ~this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_].unit_capacities[Arc{this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_],this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)]}].add((elem(elem(elem(this.ex_ctx_.bids).bids_).request_.portfolio_.lock().constraints_).converter_.convert(elem(elem(this.ex_ctx_.bids).bids_).offer_,Arc{this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_],this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)]},this.xlation_ctx_)/elem(elem(this.ex_ctx_.bids).bids_).offer_.qty_)) IF !this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] == 0 & this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] >= 0
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] put Arc{this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_],this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)]}.unode_.lock().prefs.put(Arc{this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_],this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)]}, this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)]) IF !this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] == 0 & this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] >= 0
  [for this.ex_ctx_.bids] [for elem(this.ex_ctx_.bids).bids_] call new ExchangeGraph{}.cyclus::ExchangeGraph::AddArc(Arc{this.xlation_ctx_.request_to_node[elem(elem(this.ex_ctx_.bids).bids_).request_],this.xlation_ctx_.bid_to_node[elem(elem(this.ex_ctx_.bids).bids_)]}) IF !this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] == 0 & this.ex_ctx_.trader_prefs[elem(elem(this.ex_ctx_.bids).bids_).request_.requester_][elem(elem(this.ex_ctx_.bids).bids_).request_][elem(elem(this.ex_ctx_.bids).bids_)] >= 0
  ret return(new ExchangeGraph{}) IF T
  seq 7<10
fn cyclus::ExchangeTranslator<cyclus::Material>::AddArc | cyclus::Request<cyclus::Material> *; cyclus::Bid<cyclus::Material> *; boost::shared_ptr<cyclus::ExchangeGraph>
  throw cyclus::ValueError() IF this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] == 0 & this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] >= 0
  call Arc{this.xlation_ctx_.request_to_node[$1.request_],this.xlation_ctx_.bid_to_node[$1]}.cyclus::Arc::pref(this.ex_ctx_.trader_prefs[$0.requester_][$0][$1]) IF !this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] == 0 & this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] >= 0
  [for $1.portfolio_.lock().constraints_] add ~this.xlation_ctx_.bid_to_node[$1].unit_capacities[Arc{this.xlation_ctx_.request_to_node[$1.request_],this.xlation_ctx_.bid_to_node[$1]}].add((elem($1.portfolio_.lock().constraints_).converter_.convert($1.offer_,Arc{this.xlation_ctx_.request_to_node[$1.request_],this.xlation_ctx_.bid_to_node[$1]},this.xlation_ctx_)/$1.offer_.qty_)) IF !this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] == 0 & this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] >= 0
  [for $1.request_.portfolio_.lock().constraints_] add ~this.xlation_ctx_.request_to_node[$1.request_].unit_capacities[Arc{this.xlation_ctx_.request_to_node[$1.request_],this.xlation_ctx_.bid_to_node[$1]}].add((elem($1.request_.portfolio_.lock().constraints_).converter_.convert($1.offer_,Arc{this.xlation_ctx_.request_to_node[$1.request_],this.xlation_ctx_.bid_to_node[$1]},this.xlation_ctx_)/$1.offer_.qty_)) IF !this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] == 0 & this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] >= 0
  put Arc{this.xlation_ctx_.request_to_node[$1.request_],this.xlation_ctx_.bid_to_node[$1]}.unode_.lock().prefs.put(Arc{this.xlation_ctx_.request_to_node[$1.request_],this.xlation_ctx_.bid_to_node[$1]}, this.ex_ctx_.trader_prefs[$0.requester_][$0][$1]) IF !this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] == 0 & this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] >= 0
  call $2.cyclus::ExchangeGraph::AddArc(Arc{this.xlation_ctx_.request_to_node[$1.request_],this.xlation_ctx_.bid_to_node[$1]}) IF !this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] == 0 & this.ex_ctx_.trader_prefs[$0.requester_][$0][$1] >= 0
fn cyclus::ExchangeTranslator<cyclus::Material>::BackTranslateSolution | const std::vector<std::pair<cyclus::Arc, double>> &; std::vector<cyclus::Trade<cyclus::Material>> &
  [for $0] add $1.add(@Trade<Material>{amt=elem($0).second; bid=this.xlation_ctx_.node_to_bid[elem($0).first.vnode_.lock()]; request=this.xlation_ctx_.node_to_request[elem($0).first.unode_.lock()]}) IF T
fn cyclus::ExchangeTranslator<cyclus::Material>::translation_ctx | const
  ret return(this.xlation_ctx_) IF T
fn cyclus::ExchangeTranslator<cyclus::Material>::translation_ctx | 
  ret return(this.xlation_ctx_) IF T
fn cyclus::AddRequest<cyclus::Material> | cyclus::ExchangeTranslationContext<cyclus::Material> &; cyclus::Request<cyclus::Material> *; boost::shared_ptr<cyclus::ExchangeNode>
  put $0.request_to_node.put($1, $2) IF T
  put $0.node_to_request.put($2, $1) IF T
fn cyclus::AddBid<cyclus::Material> | cyclus::ExchangeTranslationContext<cyclus::Material> &; cyclus::Bid<cyclus::Material> *; boost::shared_ptr<cyclus::ExchangeNode>
  put $0.bid_to_node.put($1, $2) IF T
  put $0.node_to_bid.put($2, $1) IF T
fn cyclus::TranslateRequestPortfolio<cyclus::Material> | cyclus::ExchangeTranslationContext<cyclus::Material> &; const boost::shared_ptr<cyclus::RequestPortfolio<cyclus::Material>>
  [for $1.requests_] call new RequestGroup{$1.qty_}.cyclus::RequestGroup::AddExchangeNode(new ExchangeNode{elem($1.requests_).target_.qty_,elem($1.requests_).exclusive_,elem($1.requests_).commodity_,elem($1.requests_).requester_.manager_.id_}) IF T
  [for $1.requests_] put $0.request_to_node.put(elem($1.requests_), new ExchangeNode{elem($1.requests_).target_.qty_,elem($1.requests_).exclusive_,elem($1.requests_).commodity_,elem($1.requests_).requester_.manager_.id_}) IF T
  [for $1.requests_] put $0.node_to_request.put(new ExchangeNode{elem($1.requests_).target_.qty_,elem($1.requests_).exclusive_,elem($1.requests_).commodity_,elem($1.requests_).requester_.manager_.id_}, elem($1.requests_)) IF T
  [for $1.constraints_] call new RequestGroup{$1.qty_}.cyclus::ExchangeNodeGroup::AddCapacity(elem($1.constraints_).capacity_) IF T
  ret return(new RequestGroup{$1.qty_}) IF T
fn cyclus::TranslateBidPortfolio<cyclus::Material> | cyclus::ExchangeTranslationContext<cyclus::Material> &; const boost::shared_ptr<cyclus::BidPortfolio<cyclus::Material>>
  [for $1.bids_] call new ExchangeNodeGroup{}.cyclus::ExchangeNodeGroup::AddExchangeNode(new ExchangeNode{elem($1.bids_).offer_.qty_,elem($1.bids_).exclusive_,elem($1.bids_).request_.commodity_,elem($1.bids_).bidder_.manager_.id_}) IF T
  [for $1.bids_] put $0.bid_to_node.put(elem($1.bids_), new ExchangeNode{elem($1.bids_).offer_.qty_,elem($1.bids_).exclusive_,elem($1.bids_).request_.commodity_,elem($1.bids_).bidder_.manager_.id_}) IF T
  [for $1.bids_] put $0.node_to_bid.put(new ExchangeNode{elem($1.bids_).offer_.qty_,elem($1.bids_).exclusive_,elem($1.bids_).request_.commodity_,elem($1.bids_).bidder_.manager_.id_}, elem($1.bids_)) IF T
  [for @map<boost::shared_ptr<Material>, vector<boost::shared_ptr<ExchangeNode>>>] call new ExchangeNodeGroup{}.cyclus::ExchangeNodeGroup::AddExclGroup(elem(@map<boost::shared_ptr<Material>, vector<boost::shared_ptr<ExchangeNode>>>).second) IF T
  [for $1.constraints_] call new ExchangeNodeGroup{}.cyclus::ExchangeNodeGroup::AddCapacity(elem($1.constraints_).capacity_) IF T
  ret return(new ExchangeNodeGroup{}) IF T
  seq 0<3
fn cyclus::TranslateArc<cyclus::Material> | const cyclus::ExchangeTranslationContext<cyclus::Material> &; cyclus::Bid<cyclus::Material> *; double
  call Arc{$0.request_to_node[$1.request_],$0.bid_to_node[$1]}.cyclus::Arc::pref($2) IF T
  [for $1.portfolio_.lock().constraints_] add ~$0.bid_to_node[$1].unit_capacities[Arc{$0.request_to_node[$1.request_],$0.bid_to_node[$1]}].add((elem($1.portfolio_.lock().constraints_).converter_.convert($1.offer_,Arc{$0.request_to_node[$1.request_],$0.bid_to_node[$1]},$0)/$1.offer_.qty_)) IF T
  [for $1.request_.portfolio_.lock().constraints_] add ~$0.request_to_node[$1.request_].unit_capacities[Arc{$0.request_to_node[$1.request_],$0.bid_to_node[$1]}].add((elem($1.request_.portfolio_.lock().constraints_).converter_.convert($1.offer_,Arc{$0.request_to_node[$1.request_],$0.bid_to_node[$1]},$0)/$1.offer_.qty_)) IF T
  ret return(Arc{$0.request_to_node[$1.request_],$0.bid_to_node[$1]}) IF T
fn cyclus::BackTranslateMatch<cyclus::Material> | const cyclus::ExchangeTranslationContext<cyclus::Material> &; const std::pair<cyclus::Arc, double> &
  ret return(@Trade<Material>{amt=$1.second; bid=$0.node_to_bid[$1.first.vnode_.lock()]; request=$0.node_to_request[$1.first.unode_.lock()]}) IF T
fn cyclus::TranslateCapacities<cyclus::Material> | boost::shared_ptr<cyclus::Material>; const std::set<cyclus::CapacityConstraint<cyclus::Material>> &; boost::shared_ptr<cyclus::ExchangeNode>; const cyclus::Arc &; const cyclus::ExchangeTranslationContext<cyclus::Material> &
  [for $1] add ~$2.unit_capacities[$3].add((elem($1).converter_.convert($0,$3,$4)/$0.qty_)) IF T
fn cyclus::ExchangeManager<cyclus::Material>::ExchangeManager | cyclus::Context *
  set this.debug_(false) IF T
  set this.ctx_($0) IF T
  call cyclus::Env::GetEnv("CYCLUS_DEBUG_DRE") IF T
  set this.debug_(true) IF !empty(cyclus::Env::GetEnv("CYCLUS_DEBUG_DRE"))
fn cyclus::ExchangeManager<cyclus::Material>::Execute | 
  call ResourceExchange<Material>{this.ctx_}.cyclus::ResourceExchange::AddAllRequests() IF T
  call ResourceExchange<Material>{this.ctx_}.cyclus::ResourceExchange::AddAllBids() IF T
  call ResourceExchange<Material>{this.ctx_}.cyclus::ResourceExchange::AdjustAll() IF T
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Time", this.ctx_.ti_.time_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("ReqId", this.ctx_.ti_.time_ ++ "_" ++ elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_)) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("RequesterID", elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_).requester_.manager_.id_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Commodity", elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_).commodity_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Preference", elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_).preference_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Exclusive", elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_).exclusive_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("ResType", cyclus::Material::kType) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Quantity", elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_).target_.qty_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("ResUnits", "kg") IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.requests').requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::Record() IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("ReqId", this.ctx_.ti_.time_ ++ "_" ++ elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_).request_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("BidderId", elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_).bidder_.manager_.id_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("BidQuantity", elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_).offer_.qty_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("Exclusive", elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_).exclusive_) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("Preference", ResourceExchange<Material>{this.ctx_}.ex_ctx_.trader_prefs'[elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_).request_.requester_][elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_).request_][elem(elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_)]) IF this.debug_
  [for ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids'] [for elem(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids').bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::Record() IF this.debug_
  call ExchangeTranslator<Material>{ResourceExchange<Material>{this.ctx_}.ex_ctx_}.cyclus::ExchangeTranslator::Translate() IF !empty(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids_by_request')
  call this.ctx_.cyclus::Context::solver() IF !empty(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids_by_request')
  call this.ctx_.solver().cyclus::ExchangeSolver::Solve(ExchangeTranslator<Material>{ResourceExchange<Material>{this.ctx_}.ex_ctx_}.Translate()) IF !empty(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids_by_request')
  call ExchangeTranslator<Material>{ResourceExchange<Material>{this.ctx_}.ex_ctx_}.cyclus::ExchangeTranslator::BackTranslateSolution(ExchangeTranslator<Material>{ResourceExchange<Material>{this.ctx_}.ex_ctx_}.Translate().matches_, @vector<Trade<Material>>) IF !empty(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids_by_request')
  call TradeExecutor<Material>{@vector<Trade<Material>>}.cyclus::TradeExecutor::ExecuteTrades(this.ctx_) IF !empty(ResourceExchange<Material>{this.ctx_}.ex_ctx_.bids_by_request')
  seq 0<1 0<2 1<2 19<22
fn cyclus::ExchangeManager<cyclus::Material>::RecordDebugInfo | cyclus::ExchangeContext<cyclus::Material> &
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Time", this.ctx_.ti_.time_) IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("ReqId", this.ctx_.ti_.time_ ++ "_" ++ elem(elem($0.requests).requests_)) IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("RequesterID", elem(elem($0.requests).requests_).requester_.manager_.id_) IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Commodity", elem(elem($0.requests).requests_).commodity_) IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Preference", elem(elem($0.requests).requests_).preference_) IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Exclusive", elem(elem($0.requests).requests_).exclusive_) IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("ResType", cyclus::Material::kType) IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("Quantity", elem(elem($0.requests).requests_).target_.qty_) IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::AddVal("ResUnits", "kg") IF T
  [for $0.requests] [for elem($0.requests).requests_] call this.ctx_.rec_.NewDatum("DebugRequests").cyclus::Datum::Record() IF T
  [for $0.bids] [for elem($0.bids).bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("ReqId", this.ctx_.ti_.time_ ++ "_" ++ elem(elem($0.bids).bids_).request_) IF T
  [for $0.bids] [for elem($0.bids).bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("BidderId", elem(elem($0.bids).bids_).bidder_.manager_.id_) IF T
  [for $0.bids] [for elem($0.bids).bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("BidQuantity", elem(elem($0.bids).bids_).offer_.qty_) IF T
  [for $0.bids] [for elem($0.bids).bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("Exclusive", elem(elem($0.bids).bids_).exclusive_) IF T
  [for $0.bids] [for elem($0.bids).bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::AddVal("Preference", $0.trader_prefs[elem(elem($0.bids).bids_).request_.requester_][elem(elem($0.bids).bids_).request_][elem(elem($0.bids).bids_)]) IF T
  [for $0.bids] [for elem($0.bids).bids_] call this.ctx_.rec_.NewDatum("DebugBids").cyclus::Datum::Record() IF T
fn cyclus::AdjustPrefs | cyclus::Agent *; std::map<cyclus::Request<cyclus::Material> *, std::map<cyclus::Bid<cyclus::Material> *, double>> &
  call $0.cyclus::Agent::AdjustMatlPrefs($1) IF T
fn cyclus::AdjustPrefs | cyclus::Agent *; std::map<cyclus::Request<cyclus::Product> *, std::map<cyclus::Bid<cyclus::Product> *, double>> &
  call $0.cyclus::Agent::AdjustProductPrefs($1) IF T
fn cyclus::AdjustPrefs | cyclus::Trader *; std::map<cyclus::Request<cyclus::Material> *, std::map<cyclus::Bid<cyclus::Material> *, double>> &
  call $0.cyclus::Trader::AdjustMatlPrefs($1) IF T
fn cyclus::AdjustPrefs | cyclus::Trader *; std::map<cyclus::Request<cyclus::Product> *, std::map<cyclus::Bid<cyclus::Product> *, double>> &
  call $0.cyclus::Trader::AdjustProductPrefs($1) IF T
fn cyclus::QueryRequests<cyclus::Material> | cyclus::Trader *
  call $0.cyclus::Trader::GetMatlRequests() IF T
  ret return($0.GetMatlRequests()) IF T
fn cyclus::QueryRequests<cyclus::Product> | cyclus::Trader *
  call $0.cyclus::Trader::GetProductRequests() IF T
  ret return($0.GetProductRequests()) IF T
fn cyclus::QueryBids<cyclus::Material> | cyclus::Trader *; std::map<std::basic_string<char>, std::vector<cyclus::Request<cyclus::Material> *>> &
  call $0.cyclus::Trader::GetMatlBids($1) IF T
  ret return($0.GetMatlBids($1)) IF T
fn cyclus::QueryBids<cyclus::Product> | cyclus::Trader *; std::map<std::basic_string<char>, std::vector<cyclus::Request<cyclus::Product> *>> &
  call $0.cyclus::Trader::GetProductBids($1) IF T
  ret return($0.GetProductBids($1)) IF T
fn cyclus::ExchangeGraph::ExchangeGraph
  set this.request_groups_(vector{}) IF T
  set this.supply_groups_(vector{}) IF T
  set this.node_arc_map_(map{}) IF T
  set this.matches_(vector{}) IF T
  set this.arcs_(vector{}) IF T
  set this.arc_ids_(map{}) IF T
  set this.arc_by_id_(map{}) IF T
  set this.next_arc_id_(0) IF T
fn cyclus::ExchangeGraph::AddRequestGroup
  add this.request_groups_.add($0) IF T
fn cyclus::ExchangeGraph::AddSupplyGroup
  add this.supply_groups_.add($0) IF T
fn cyclus::ExchangeGraph::AddArc
  add this.arcs_.add($0) IF T
  set this.next_arc_id_((this.next_arc_id_+1)) IF T
  put this.arc_ids_.put($0, this.next_arc_id_) IF !has(this.arc_ids_,$0)
  put this.arc_by_id_.put(this.next_arc_id_, $0) IF !has(this.arc_by_id_,this.next_arc_id_)
  add this.node_arc_map_[$0.unode_.lock()].add($0) IF T
  add this.node_arc_map_[$0.vnode_.lock()].add($0) IF T
fn cyclus::ExchangeGraph::AddMatch
  add this.matches_.add(pair($0,$1)) IF T
fn cyclus::ExchangeGraph::ClearMatches
  del this.matches_.clear() IF T
fn cyclus::ExchangeGraph::request_groups | const
  ret return(this.request_groups_) IF T
fn cyclus::ExchangeGraph::request_groups | 
  ret return(this.request_groups_) IF T
fn cyclus::ExchangeGraph::supply_groups | const
  ret return(this.supply_groups_) IF T
fn cyclus::ExchangeGraph::supply_groups | 
  ret return(this.supply_groups_) IF T
fn cyclus::ExchangeGraph::node_arc_map | const
  ret return(this.node_arc_map_) IF T
fn cyclus::ExchangeGraph::node_arc_map | 
  ret return(this.node_arc_map_) IF T
fn cyclus::ExchangeGraph::matches
  ret return(this.matches_) IF T
fn cyclus::ExchangeGraph::arcs | const
  ret return(this.arcs_) IF T
fn cyclus::ExchangeGraph::arcs | 
  ret return(this.arcs_) IF T
fn cyclus::ExchangeGraph::arc_ids | const
  ret return(this.arc_ids_) IF T
fn cyclus::ExchangeGraph::arc_ids | 
  ret return(this.arc_ids_) IF T
fn cyclus::ExchangeGraph::arc_by_id | const
  ret return(this.arc_by_id_) IF T
fn cyclus::ExchangeGraph::arc_by_id | 
  ret return(this.arc_by_id_) IF T
fn cyclus::ExchangeNodeGroup::AddExchangeNode
  set $0.group(this) IF T
  add this.nodes_.add($0) IF T
fn cyclus::ExchangeNodeGroup::AddExclNode
  add this.excl_node_groups_.add([$0]) IF T
fn cyclus::ExchangeNodeGroup::nodes | const
  ret return(this.nodes_) IF T
fn cyclus::ExchangeNodeGroup::nodes | 
  ret return(this.nodes_) IF T
fn cyclus::ExchangeNodeGroup::excl_node_groups | const
  ret return(this.excl_node_groups_) IF T
fn cyclus::ExchangeNodeGroup::excl_node_groups | 
  ret return(this.excl_node_groups_) IF T
fn cyclus::ExchangeNodeGroup::capacities | const
  ret return(this.capacities_) IF T
fn cyclus::ExchangeNodeGroup::capacities | 
  ret return(this.capacities_) IF T
fn cyclus::ExchangeNodeGroup::AddExclGroup
  add this.excl_node_groups_.add($0) IF T
fn cyclus::ExchangeNodeGroup::HasArcs
  ret return(true) IF ANY(this.nodes_: !empty(elem(this.nodes_).prefs))
fn cyclus::ExchangeNodeGroup::AddCapacity
  add this.capacities_.add($0) IF T
fn cyclus::ExchangeNode::ExchangeNode | double; bool; std::basic_string<char>; int
  set this.group(NULL) IF T
  set this.unit_capacities(map{}) IF T
  set this.prefs(map{}) IF T
  set this.exclusive($1) IF T
  set this.commod($2) IF T
  set this.agent_id($3) IF T
  set this.qty($0) IF T
fn cyclus::ExchangeNode::ExchangeNode | double; bool
  set this.group(NULL) IF T
  set this.unit_capacities(map{}) IF T
  set this.prefs(map{}) IF T
  set this.exclusive($1) IF T
  set this.commod("") IF T
  set this.agent_id(-1) IF T
  set this.qty($0) IF T
fn cyclus::ExchangeNode::ExchangeNode | double; bool; std::basic_string<char>
  set this.group(NULL) IF T
  set this.unit_capacities(map{}) IF T
  set this.prefs(map{}) IF T
  set this.exclusive($1) IF T
  set this.commod($2) IF T
  set this.agent_id(-1) IF T
  set this.qty($0) IF T
fn cyclus::ExchangeNode::ExchangeNode | double
  set this.group(NULL) IF T
  set this.unit_capacities(map{}) IF T
  set this.prefs(map{}) IF T
  set this.exclusive(false) IF T
  set this.commod("") IF T
  set this.agent_id(-1) IF T
  set this.qty($0) IF T
fn cyclus::ExchangeNode::ExchangeNode | 
  set this.group(NULL) IF T
  set this.unit_capacities(map{}) IF T
  set this.prefs(map{}) IF T
  set this.exclusive(false) IF T
  set this.commod("") IF T
  set this.agent_id(-1) IF T
  set this.qty(std::numeric_limits<double>::max()) IF T
fn cyclus::RequestGroup::RequestGroup
  default 0 = 0
  set this.qty_($0) IF T
fn cyclus::RequestGroup::AddExchangeNode
  set $0.group(this) IF T
  add this.nodes_.add($0) IF T
  add this.excl_node_groups_.add([$0]) IF $0.exclusive
fn cyclus::RequestGroup::qty
  ret return(this.qty_) IF T
fn cyclus::Arc::Arc | boost::shared_ptr<cyclus::ExchangeNode>; boost::shared_ptr<cyclus::ExchangeNode>
  set this.unode_($0) IF T
  set this.vnode_($1) IF T
  set this.exclusive_(true) IF $0.exclusive | $1.exclusive
  set this.exclusive_(false) IF !$0.exclusive & !$1.exclusive
  set this.excl_val_($0.qty) IF $0.exclusive & !$1.exclusive & (boost::math::float_distance($0.qty,$1.qty)+cyclus::float_ulp_eq) >= 0 | $0.exclusive & $1.exclusive & !(abs(boost::math::float_distance($0.qty,$1.qty))-cyclus::float_ulp_eq) > 0
  set this.excl_val_(0) IF !$0.exclusive & !$1.exclusive | !$0.exclusive & (boost::math::float_distance($0.qty,$1.qty)-cyclus::float_ulp_eq) > 0 | !$1.exclusive & !(boost::math::float_distance($0.qty,$1.qty)+cyclus::float_ulp_eq) >= 0 | $0.exclusive & $1.exclusive & (abs(boost::math::float_distance($0.qty,$1.qty))-cyclus::float_ulp_eq) > 0
  set this.excl_val_($1.qty) IF !$0.exclusive & $1.exclusive & !(boost::math::float_distance($0.qty,$1.qty)-cyclus::float_ulp_eq) > 0
fn cyclus::Arc::Arc | const cyclus::Arc &
  set this.unode_($0.unode_.lock()) IF T
  set this.vnode_($0.vnode_.lock()) IF T
  set this.exclusive_($0.exclusive_) IF T
  set this.excl_val_($0.excl_val_) IF T
  set this.pref_($0.pref_) IF T
fn cyclus::Arc::Arc | 
  set this.unode_(weak_ptr{}) IF T
  set this.vnode_(weak_ptr{}) IF T
fn cyclus::Arc::operator=
  set this.unode_($0.unode_.lock()) IF T
  set this.vnode_($0.vnode_.lock()) IF T
  set this.exclusive_($0.exclusive_) IF T
  set this.excl_val_($0.excl_val_) IF T
  set this.pref_($0.pref_) IF T
  ret return(this) IF T
fn cyclus::Arc::operator<
  ret return(true) IF !lt($0.unode_,this.unode_) & lt(this.vnode_,$0.vnode_) | lt(this.unode_,$0.unode_)
fn cyclus::Arc::operator==
  ret return(true) IF $0.unode_.lock() == this.unode_.lock() & $0.vnode_.lock() == this.vnode_.lock()
fn cyclus::Arc::unode
  ret return(this.unode_.lock()) IF T
fn cyclus::Arc::vnode
  ret return(this.vnode_.lock()) IF T
fn cyclus::Arc::exclusive
  ret return(this.exclusive_) IF T
fn cyclus::Arc::excl_val
  ret return(this.excl_val_) IF T
fn cyclus::Arc::pref | const
  ret return(this.pref_) IF T
fn cyclus::Arc::pref | double
  set this.pref_($0) IF T
