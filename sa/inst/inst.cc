// Explicit instantiations: makes every member of the header-only templates
// part of the resolved program.  Analysis input only, never linked or run.
#include "cyclus.h"
#include "toolkit/res_buf.h"
#include "toolkit/res_map.h"
#include "toolkit/total_inv_tracker.h"
#include "exchange_manager.h"
#include "resource_exchange.h"
#include "trade_executor.h"
#include "exchange_translator.h"
#include "exchange_context.h"
#include "request_portfolio.h"
#include "bid_portfolio.h"
#include "capacity_constraint.h"

template class cyclus::toolkit::ResBuf<cyclus::Material>;
template class cyclus::toolkit::ResBuf<cyclus::Product>;
template class cyclus::toolkit::ResBuf<cyclus::Resource>;
template class cyclus::toolkit::ResMap<std::string, cyclus::Product>;
template class cyclus::toolkit::ResMap<int, cyclus::Material>;
template class cyclus::ExchangeManager<cyclus::Material>;
template class cyclus::ExchangeManager<cyclus::Product>;
template class cyclus::ResourceExchange<cyclus::Material>;
template class cyclus::ResourceExchange<cyclus::Product>;
template class cyclus::TradeExecutor<cyclus::Material>;
template class cyclus::TradeExecutor<cyclus::Product>;
template class cyclus::ExchangeTranslator<cyclus::Material>;
template class cyclus::ExchangeTranslator<cyclus::Product>;
template class cyclus::ExchangeTranslationContext<cyclus::Material>;
template class cyclus::ExchangeTranslationContext<cyclus::Product>;
template struct cyclus::ExchangeContext<cyclus::Material>;
template struct cyclus::ExchangeContext<cyclus::Product>;
template class cyclus::RequestPortfolio<cyclus::Material>;
template class cyclus::RequestPortfolio<cyclus::Product>;
template class cyclus::BidPortfolio<cyclus::Material>;
template class cyclus::BidPortfolio<cyclus::Product>;
template class cyclus::CapacityConstraint<cyclus::Material>;
template class cyclus::CapacityConstraint<cyclus::Product>;
template class cyclus::Request<cyclus::Material>;
template class cyclus::Request<cyclus::Product>;
template struct cyclus::Trade<cyclus::Material>;
