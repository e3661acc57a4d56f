fn cyclus::TradeExecutor<cyclus::Material>::TradeExecutor | const std::vector<cyclus::Trade<cyclus::Material>> &
  set this.trades_($0) IF T
  set this.trade_ctx_(TradeExecutionContext<Material>{}) IF T
fn cyclus::TradeExecutor<cyclus::Material>::ExecuteTrades | 
  call cyclus::Warn("this function does not record trades to the database", of(cyclus::IO_WARNING)) IF T
  [for this.trades_] add this.trade_ctx_.trades_by_supplier[elem(this.trades_).bid.bidder_].add(elem(this.trades_)) IF T
  [for this.trades_] add this.trade_ctx_.suppliers.add(elem(this.trades_).bid.bidder_) IF !has(this.trade_ctx_.suppliers,elem(this.trades_).bid.bidder_)
  [for this.trades_] add this.trade_ctx_.requesters.add(elem(this.trades_).request.requester_) IF !has(this.trade_ctx_.requesters,elem(this.trades_).request.requester_)
  [for fold(this.trades_; this.trade_ctx_.suppliers; ~')] call cyclus::PopulateTradeResponses(elem(fold(this.trades_; this.trade_ctx_.suppliers; ~')), this.trade_ctx_.trades_by_supplier[elem(fold(this.trades_; this.trade_ctx_.suppliers; ~'))], @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>) IF T
  [for fold(this.trades_; this.trade_ctx_.suppliers; ~')] [for @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>'] add ~this.trade_ctx_.trades_by_requester[elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>).first.request.requester_].add(elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>)) IF T
  [for fold(this.trades_; this.trade_ctx_.suppliers; ~')] [for @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>'] add this.trade_ctx_.all_trades[pair(elem(fold(this.trades_; this.trade_ctx_.suppliers; ~')),elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>).first.request.requester_)].add(elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>)) IF T
  [for fold(this.trades_; this.trade_ctx_.requesters; ~')] call cyclus::AcceptTrades(elem(fold(this.trades_; this.trade_ctx_.requesters; ~')), this.trade_ctx_.trades_by_requester[elem(fold(this.trades_; this.trade_ctx_.requesters; ~'))]) IF T
fn cyclus::TradeExecutor<cyclus::Material>::ExecuteTrades | cyclus::Context *
  [for this.trades_] add this.trade_ctx_.trades_by_supplier[elem(this.trades_).bid.bidder_].add(elem(this.trades_)) IF T
  [for this.trades_] add this.trade_ctx_.suppliers.add(elem(this.trades_).bid.bidder_) IF !has(this.trade_ctx_.suppliers,elem(this.trades_).bid.bidder_)
  [for this.trades_] add this.trade_ctx_.requesters.add(elem(this.trades_).request.requester_) IF !has(this.trade_ctx_.requesters,elem(this.trades_).request.requester_)
  [for fold(this.trades_; this.trade_ctx_.suppliers; ~')] call cyclus::PopulateTradeResponses(elem(fold(this.trades_; this.trade_ctx_.suppliers; ~')), this.trade_ctx_.trades_by_supplier[elem(fold(this.trades_; this.trade_ctx_.suppliers; ~'))], @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>) IF T
  [for fold(this.trades_; this.trade_ctx_.suppliers; ~')] [for @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>'] add ~this.trade_ctx_.trades_by_requester[elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>).first.request.requester_].add(elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>)) IF T
  [for fold(this.trades_; this.trade_ctx_.suppliers; ~')] [for @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>'] add this.trade_ctx_.all_trades[pair(elem(fold(this.trades_; this.trade_ctx_.suppliers; ~')),elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>).first.request.requester_)].add(elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>)) IF T
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.cyclus::Context::NextTransactionID() IF $0 & !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("TransactionId", $0.NextTransactionID()) IF $0 & !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("SenderId", elem(this.trade_ctx_.all_trades).first.first.manager_.id_) IF $0 & !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("ReceiverId", elem(this.trade_ctx_.all_trades).first.second.manager_.id_) IF $0 & !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("ResourceId", elem(elem(this.trade_ctx_.all_trades).second).second.state_id_) IF $0 & !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("Commodity", elem(elem(this.trade_ctx_.all_trades).second).first.request.commodity_) IF $0 & !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("Time", $0.ti_.time_) IF $0 & !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::Record() IF $0 & !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for fold(this.trades_; this.trade_ctx_.requesters; ~')] call cyclus::AcceptTrades(elem(fold(this.trades_; this.trade_ctx_.requesters; ~')), this.trade_ctx_.trades_by_requester[elem(fold(this.trades_; this.trade_ctx_.requesters; ~'))]) IF T
fn cyclus::TradeExecutor<cyclus::Material>::RecordTrades | cyclus::Context *
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.cyclus::Context::NextTransactionID() IF !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("TransactionId", $0.NextTransactionID()) IF !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("SenderId", elem(this.trade_ctx_.all_trades).first.first.manager_.id_) IF !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("ReceiverId", elem(this.trade_ctx_.all_trades).first.second.manager_.id_) IF !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("ResourceId", elem(elem(this.trade_ctx_.all_trades).second).second.state_id_) IF !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("Commodity", elem(elem(this.trade_ctx_.all_trades).second).first.request.commodity_) IF !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::AddVal("Time", $0.ti_.time_) IF !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
  [for this.trade_ctx_.all_trades] [for elem(this.trade_ctx_.all_trades).second] call $0.rec_.NewDatum("Transactions").cyclus::Datum::Record() IF !(cyclus::cy_eps_rsrc-elem(elem(this.trade_ctx_.all_trades).second).second.qty_) >= 0
fn cyclus::TradeExecutor<cyclus::Material>::trade_ctx | const
  ret return(this.trade_ctx_) IF T
fn cyclus::TradeExecutor<cyclus::Material>::trade_ctx | 
  ret return(this.trade_ctx_) IF T
fn cyclus::GroupTradesBySupplier<cyclus::Material> | cyclus::TradeExecutionContext<cyclus::Material> &; const std::vector<cyclus::Trade<cyclus::Material>> &
  [for $1] add $0.trades_by_supplier[elem($1).bid.bidder_].add(elem($1)) IF T
  [for $1] add $0.suppliers.add(elem($1).bid.bidder_) IF !has($0.suppliers,elem($1).bid.bidder_)
  [for $1] add $0.requesters.add(elem($1).request.requester_) IF !has($0.requesters,elem($1).request.requester_)
fn cyclus::GetTradeResponses<cyclus::Material> | cyclus::TradeExecutionContext<cyclus::Material> &
  [for $0.suppliers] call cyclus::PopulateTradeResponses(elem($0.suppliers), $0.trades_by_supplier[elem($0.suppliers)], @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>) IF T
  [for $0.suppliers] [for @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>'] add ~$0.trades_by_requester[elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>).first.request.requester_].add(elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>)) IF T
  [for $0.suppliers] [for @vector<pair<Trade<Material>, boost::shared_ptr<Material>>>'] add $0.all_trades[pair(elem($0.suppliers),elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>).first.request.requester_)].add(elem(@vector<pair<Trade<Material>, boost::shared_ptr<Material>>>)) IF T
fn cyclus::SendTradeResources<cyclus::Material> | cyclus::TradeExecutionContext<cyclus::Material> &
  [for $0.requesters] call cyclus::AcceptTrades(elem($0.requesters), $0.trades_by_requester[elem($0.requesters)]) IF T
fn cyclus::PopulateTradeResponses<cyclus::Material> | cyclus::Trader *; const std::vector<cyclus::Trade<cyclus::Material>> &; std::vector<std::pair<cyclus::Trade<cyclus::Material>, boost::shared_ptr<cyclus::Material>>> &
  call dyn<cyclus::Trader>($0).cyclus::Trader::GetMatlTrades($1, $2) IF T
fn cyclus::PopulateTradeResponses<cyclus::Product> | cyclus::Trader *; const std::vector<cyclus::Trade<cyclus::Product>> &; std::vector<std::pair<cyclus::Trade<cyclus::Product>, boost::shared_ptr<cyclus::Product>>> &
  call $0.cyclus::Trader::GetProductTrades($1, $2) IF T
fn cyclus::AcceptTrades<cyclus::Material> | cyclus::Trader *; const std::vector<std::pair<cyclus::Trade<cyclus::Material>, boost::shared_ptr<cyclus::Material>>> &
  call dyn<cyclus::Trader>($0).cyclus::Trader::AcceptMatlTrades($1) IF T
fn cyclus::AcceptTrades<cyclus::Product> | cyclus::Trader *; const std::vector<std::pair<cyclus::Trade<cyclus::Product>, boost::shared_ptr<cyclus::Product>>> &
  call $0.cyclus::Trader::AcceptProductTrades($1) IF T
fn cyclus::Context::NextTransactionID
  set this.trans_id_((this.trans_id_+1)) IF T
  ret return(this.trans_id_) IF T
