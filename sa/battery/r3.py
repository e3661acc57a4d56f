RB='src/toolkit/res_buf.h'; G='src/greedy_solver.cc'; GH='src/greedy_solver.h'; GP='src/greedy_preconditioner.cc'; EG='src/exchange_graph.cc'; RE='src/resource_exchange.h'; TE='src/trade_executor.h'
V=[]
def v(name,*e): V.append((name,None,list(e)))
v('rb1',
 (RB,'''    while (left > 0 && count() > 0) {
      r = rs_.front();
      rs_.pop_front();
      quan = r->quantity();
      if (quan > left) {''','''    while (left > 0 && !rs_.empty()) {
      r = rs_.front();
      rs_.pop_front();
      quan = r->quantity();
      const bool split = quan > left;
      if (split) {'''),
 (RB,'''    for (int i = 0; i < n; i++) {
      typename T::Ptr r = rs_.front();
      qty_ -= r->quantity();
      rs_.pop_front();
      rs.push_back(r);
      rs_present_.erase(r);
    }
''','''    rs.reserve(n);
    while (n-- > 0) {
      typename T::Ptr r = rs_.front();
      rs_.pop_front();
      rs_present_.erase(r);
      qty_ -= r->quantity();
      rs.push_back(r);
    }
'''),
 (RB,'''    int n = rs_.size();
    if (n == 0) {
      qty_ = 0;
    } else if (n == 1) {
      qty_ = rs_.front()->quantity();
    }''','''    switch (rs_.size()) {
      case 0:
        qty_ = 0;
        break;
      case 1:
        qty_ = rs_.front()->quantity();
        break;
      default:
        break;
    }'''),
 (RB,'''    if (m == NULL) {
      throw CastError("pushing wrong type of resource onto ResBuf");
    } else if (r->quantity() - space() > eps_rsrc()) {''','''    if (!m) {
      throw CastError("pushing wrong type of resource onto ResBuf");
    }
    if (r->quantity() - space() > eps_rsrc()) {'''),
 (RB,'''      throw ValueError(ss.str());
    } else if (rs_present_.count(m) == 1) {
      throw KeyError("duplicate resource push attempted");
    }
''','''      throw ValueError(ss.str());
    }
    if (rs_present_.find(m) != rs_present_.end()) {
      throw KeyError("duplicate resource push attempted");
    }
'''),
)
v('rb2',
 (RB,'''    if (!is_bulk_  || rs_.size() == 0) {
      // strip package id and set as default
      if (!keep_packaging_) {
        m->ChangePackage();
      }
      rs_.push_back(m);
      rs_present_.insert(m);
    } else {
      rs_.front()->Absorb(m);
    }
    qty_ += r->quantity();''','''    Store(m);
    qty_ += r->quantity();'''),
 (RB,'''      if (!is_bulk_ || rs_.size() == 0) {
        if (!keep_packaging_) {
          rss[i]->ChangePackage();
        }
        rs_.push_back(rss[i]);
        rs_present_.insert(rss[i]);
      } else {
        rs_.front()->Absorb(rss[i]);
      }''','''      Store(rss[i]);'''),
 (RB,'''  void UpdateQty() {''','''  void Store(typename T::Ptr m) {
    if (is_bulk_ && !rs_.empty()) {
      rs_.front()->Absorb(m);
      return;
    }
    if (!keep_packaging_) {
      m->ChangePackage();
    }
    rs_.push_back(m);
    rs_present_.insert(m);
  }

  void UpdateQty() {'''),
 (RB,'''    typename T::Ptr r = rs_.front();
    rs_.pop_front();
    rs_present_.erase(r);
    qty_ -= r->quantity();
    UpdateQty();
    return r;''','''    typename T::Ptr r(rs_.front());
    qty_ -= r->quantity();
    rs_present_.erase(r);
    rs_.pop_front();
    UpdateQty();
    return r;'''),
 (RB,'''    double tot_qty = 0;
    for (int i = 0; i < rss.size(); i++) {
      tot_qty += rss.at(i)->quantity();
    }''','''    double tot_qty = 0;
    for (const auto& res : rss) {
      tot_qty += res->quantity();
    }'''),
)
v('rb3',
 (RB,'''    std::vector<typename T::Ptr> rss;
    typename T::Ptr r;
    for (int i = 0; i < rs.size(); i++) {
      r = boost::dynamic_pointer_cast<T>(rs[i]);
      if (r == NULL) {
        throw CastError("pushing wrong type of resource onto ResBuf");
      }
      rss.push_back(r);
    }

    double tot_qty = 0;
    for (int i = 0; i < rss.size(); i++) {
      tot_qty += rss.at(i)->quantity();
    }''','''    std::vector<typename T::Ptr> rss;
    double tot_qty = 0;
    for (int i = 0; i < rs.size(); i++) {
      typename T::Ptr r = boost::dynamic_pointer_cast<T>(rs[i]);
      if (r == NULL) {
        throw CastError("pushing wrong type of resource onto ResBuf");
      }
      rss.push_back(r);
      tot_qty += r->quantity();
    }'''),
 (RB,'''    for (auto rs : rs_) {
      rs->Decay(curr_time);
    }''','''    for (typename std::list<typename T::Ptr>::iterator it = rs_.begin(); it != rs_.end(); ++it) {
      (*it)->Decay(curr_time);
    }'''),
 (RB,'''    if (qty >= this->quantity()) {
      return Squash(PopN(count()));
    }
    return Pop(qty);''','''    return qty < this->quantity() ? Pop(qty) : Squash(PopN(count()));'''),
)
v('gs1',
 (G,'''      while ((match <= target) && (arc_it != sorted.end())) {
        remain = target - match;
        const Arc& a = *arc_it;''','''      for (; match <= target && arc_it != sorted.end(); ++arc_it) {
        remain = target - match;
        const Arc& a = *arc_it;'''),
 (G,'''          UpdateObj(tomatch, u->prefs[a]);
        }
        ++arc_it;
      }''','''          UpdateObj(tomatch, u->prefs[a]);
        }
      }'''),
 (G,'''          double dist = boost::math::float_distance(tomatch, excl_val);
          if (dist >= float_ulp_eq ) {
            tomatch = 0;
          } else {
            tomatch = excl_val;
          }''','''          double dist = boost::math::float_distance(tomatch, excl_val);
          tomatch = dist < float_ulp_eq ? excl_val : 0;'''),
 (G,''' std::for_each(graph_->request_groups().begin(),
                graph_->request_groups().end(),
                std::bind(
                    &GreedySolver::GetCaps,
                    this,
                    std::placeholders::_1));
''','''  for (const RequestGroup::Ptr& group : graph_->request_groups()) {
    GetCaps(group);
  }
'''),
 (G,'''  std::for_each(graph_->request_groups().begin(),
                graph_->request_groups().end(),
                std::bind(
                    &GreedySolver::GreedilySatisfySet,
                    this,
                    std::placeholders::_1));
''','''  const std::vector<RequestGroup::Ptr>& groups = graph_->request_groups();
  for (size_t i = 0; i < groups.size(); ++i) {
    GreedilySatisfySet(groups[i]);
  }
'''),
 (G,'''    // special case for unlimited capacities
    if (grp_cap == std::numeric_limits<double>::max()) {
      caps.push_back(std::numeric_limits<double>::max());
    } else {
      caps.push_back(cap);
    }''','''    const bool unlimited = grp_cap == std::numeric_limits<double>::max();
    caps.push_back(unlimited ? std::numeric_limits<double>::max() : cap);'''),
 (G,'''  if (min_cap) {  // the smallest value is constraining (for bids)
    cap = *std::min_element(caps.begin(), caps.end());
  } else {  // the largest value must be met (for requests)
    cap = *std::max_element(caps.begin(), caps.end());
  }
  return''','''  cap = min_cap ? *std::min_element(caps.begin(), caps.end())
                : *std::max_element(caps.begin(), caps.end());
  return'''),
 (G,'''  for (int i = 0; i != g->nodes().size(); i++) {
    n_qty_[g->nodes()[i]] = 0;
  }''','''  for (const ExchangeNode::Ptr& node : g->nodes()) {
    n_qty_[node] = 0;
  }'''),
 (G,'''    caps[i] = (prev == std::numeric_limits<double>::max()) ?
              std::numeric_limits<double>::max() :
              prev - qty * unit_caps[i];''','''    if (prev != std::numeric_limits<double>::max()) {
      caps[i] = prev - qty * unit_caps[i];
    }'''),
)
v('gs2',
 (G,'''          UpdateCapacity(u, a, tomatch);
          UpdateCapacity(v, a, tomatch);
          n_qty_[u] += tomatch;
          n_qty_[v] += tomatch;
          graph_->AddMatch(a, tomatch);

          match += tomatch;
          UpdateObj(tomatch, u->prefs[a]);''','''          CommitMatch(u, v, a, tomatch);
          match += tomatch;'''),
 (G,'''void GreedySolver::UpdateObj(''','''void GreedySolver::CommitMatch(ExchangeNode::Ptr u, ExchangeNode::Ptr v,
                               const Arc& a, double qty) {
  UpdateCapacity(u, a, qty);
  UpdateCapacity(v, a, qty);
  n_qty_[u] += qty;
  n_qty_[v] += qty;
  graph_->AddMatch(a, qty);
  UpdateObj(qty, u->prefs[a]);
}

void GreedySolver::UpdateObj('''),
 (GH,'''  void UpdateObj(double qty, double pref);''','''  void UpdateObj(double qty, double pref);
  void CommitMatch(ExchangeNode::Ptr u, ExchangeNode::Ptr v, const Arc& a,
                   double qty);'''),
 (G,'''  while ((match <= target) && (req_it != nodes.end())) {
    // this if statement is needed because map.at() will throw if the key does
    // not exist, which is a corner case for when there is a request with no bid
    // arcs associated with it
    if (graph_->node_arc_map().count(*req_it) > 0) {
      const std::vector<Arc>& arcs = graph_->node_arc_map().at(*req_it);
      sorted = std::vector<Arc>(arcs);  // make a copy for now''','''  while ((match <= target) && (req_it != nodes.end())) {
    auto found = graph_->node_arc_map().find(*req_it);
    if (found != graph_->node_arc_map().end()) {
      sorted = found->second;  // make a copy for now'''),
 (G,'''  obj_ += unmatched_ * pseudo_cost;
  return obj_;''','''  obj_ = obj_ + pseudo_cost * unmatched_;
  return obj_;'''),
)
v('gp1',
 (GP,'''  std::vector<RequestGroup::Ptr>::iterator it;
  for (it = groups.begin(); it != groups.end(); ++it) {
    std::vector<ExchangeNode::Ptr>& nodes =
        const_cast<std::vector<ExchangeNode::Ptr>&>((*it)->nodes());

    // get avg prefs
    for (int i = 0; i != nodes.size(); i++) {
      avg_prefs_[nodes[i]] = AvgPref(nodes[i]);
    }
''','''  std::vector<RequestGroup::Ptr>::iterator it;
  for (it = groups.begin(); it != groups.end(); ++it) {
    std::vector<ExchangeNode::Ptr>& nodes = (*it)->nodes();

    // get avg prefs
    for (const ExchangeNode::Ptr& n : nodes) {
      avg_prefs_[n] = AvgPref(n);
    }
'''),
 (GP,'''        l::bind(&GreedyPreconditioner::NodeComp, this, l::_1, l::_2));
''','''        [this](const ExchangeNode::Ptr l, const ExchangeNode::Ptr r) {
          return NodeComp(l, r);
        });
'''),
 (GP,'''  switch (order) {
    case REVERSE:
      for (it = commod_weights_.begin();
           it != commod_weights_.end();
           ++it) {
        it->second = max + min - it->second;  // reverses order
      }
      break;
    default:  // do nothing
      break;
  }
''','''  if (order == REVERSE) {
    const double total = min + max;
    for (auto& kv : commod_weights_) {
      kv.second = total - kv.second;  // reverses order
    }
  }
'''),
 (GP,'''  ExchangeNode::Ptr n;
  for (int i = 0; i != nodes.size(); i++) {
    n = nodes[i];
    sum += NodeWeight(n, weights, (*avg_prefs)[n]);
  }
  return nodes.size() > 0 ? sum / nodes.size() : 0;''','''  if (nodes.empty()) {
    return 0;
  }
  for (ExchangeNode::Ptr n : nodes) {
    sum += NodeWeight(n, weights, (*avg_prefs)[n]);
  }
  return sum / nodes.size();'''),
 (GP,'''  double commod_weight = (weights->size() != 0) ? (*weights)[n->commod] : 1;
''','''  double commod_weight = 1;
  if (!weights->empty()) {
    commod_weight = (*weights)[n->commod];
  }
'''),
)
v('eg1',
 (EG,'''  exclusive_ = unode->exclusive || vnode->exclusive;
  if (exclusive_) {
    double fqty''','''  exclusive_ = unode->exclusive || vnode->exclusive;
  excl_val_ = 0;
  if (exclusive_) {
    double fqty'''),
 (EG,'''    if (unode->exclusive && vnode->exclusive) {
      excl_val_ = (std::abs(dist) <= float_ulp_eq) ? fqty : 0;
    } else if (unode->exclusive) {
      excl_val_ = dist >= -float_ulp_eq ? fqty : 0;
    } else {
      excl_val_ = dist <= float_ulp_eq ? sqty : 0;
    }
  } else {
    excl_val_ = 0;
  }''','''    if (!vnode->exclusive) {
      if (dist >= -float_ulp_eq) excl_val_ = fqty;
    } else if (!unode->exclusive) {
      if (dist <= float_ulp_eq) excl_val_ = sqty;
    } else if (std::abs(dist) <= float_ulp_eq) {
      excl_val_ = fqty;
    }
  }'''),
 (EG,'''  std::vector<ExchangeNode::Ptr> nodes;
  nodes.push_back(node);
  excl_node_groups_.push_back(nodes);''','''  excl_node_groups_.push_back(std::vector<ExchangeNode::Ptr>(1, node));'''),
 (EG,'''  arcs_.push_back(a);
  int id = next_arc_id_++;
  arc_ids_.insert(std::pair<Arc, int>(a, id));
  arc_by_id_.insert(std::pair<int, Arc>(id, a));''','''  const int id = next_arc_id_;
  ++next_arc_id_;
  arc_ids_.insert(std::make_pair(a, id));
  arc_by_id_.emplace(id, a);
  arcs_.push_back(a);'''),
)
v('re1',
 (RE,'''    std::for_each(
        traders_.begin(),
        traders_.end(),
        std::bind(&cyclus::ResourceExchange<T>::AddRequests_,
                     this,
                     std::placeholders::_1));''','''    for (Trader* t : traders_) {
      AddRequests_(t);
    }'''),
 (RE,'''    std::for_each(
        traders_.begin(),
        traders_.end(),
        std::bind(&cyclus::ResourceExchange<T>::AddBids_,
                     this,
                     std::placeholders::_1));''','''    std::for_each(traders_.begin(), traders_.end(),
                  [this](Trader* t) { AddBids_(t); });'''),
 (RE,'''    if (traders_.size() == 0) {
      std::set<Trader*> orig = sim_ctx_->traders();
      std::set<Trader*>::iterator it;
      for (it = orig.begin(); it != orig.end(); ++it) {
        traders_.insert(*it);
      }
    }''','''    if (!traders_.empty()) return;
    const std::set<Trader*>& orig = sim_ctx_->traders();
    traders_.insert(orig.begin(), orig.end());'''),
 (RE,'''    Agent* m = t->manager()->parent();
    while (m != NULL) {
      AdjustPrefs(m, prefs);
      m = m->parent();
    }''','''    for (Agent* m = t->manager()->parent(); m != NULL; m = m->parent()) {
      AdjustPrefs(m, prefs);
    }'''),
 (RE,'''      if (left != right) {
        return left < right;
      } else {
        return lhs < rhs;
      }''','''      return left == right ? lhs < rhs : left < right;'''),
 (RE,'''    typename std::set<typename RequestPortfolio<T>::Ptr>::iterator it;
    for (it = rp.begin(); it != rp.end(); ++it) {
      ex_ctx_.AddRequestPortfolio(*it);
    }''','''    for (const auto& port : rp) {
      ex_ctx_.AddRequestPortfolio(port);
    }'''),
)
v('te1',
 (TE,'''        if (rsrc->quantity() > cyclus::eps_rsrc()) {
          ctx->NewDatum("Transactions")
              ->AddVal("TransactionId", ctx->NextTransactionID())
              ->AddVal("SenderId", supplier->id())
              ->AddVal("ReceiverId", requester->id())
              ->AddVal("ResourceId", rsrc->state_id())
              ->AddVal("Commodity", trade.request->commodity())
              ->AddVal("Time", ctx->time())
              ->Record();
        }
      }
    }
  }
''','''        if (rsrc->quantity() <= cyclus::eps_rsrc()) {
          continue;
        }
        RecordOne(ctx, supplier, requester, trade, rsrc);
      }
    }
  }

  void RecordOne(Context* ctx, Agent* supplier, Agent* requester,
                 const Trade<T>& trade, typename T::Ptr rsrc) {
    ctx->NewDatum("Transactions")
        ->AddVal("TransactionId", ctx->NextTransactionID())
        ->AddVal("SenderId", supplier->id())
        ->AddVal("ReceiverId", requester->id())
        ->AddVal("ResourceId", rsrc->state_id())
        ->AddVal("Commodity", trade.request->commodity())
        ->AddVal("Time", ctx->time())
        ->Record();
  }
'''),
 (TE,'''  for (it = trades.begin(); it != trades.end(); ++it) {
    trade_ctx.trades_by_supplier[it->bid->bidder()].push_back(*it);
    trade_ctx.suppliers.insert(it->bid->bidder());
    trade_ctx.requesters.insert(it->request->requester());
  }''','''  for (it = trades.begin(); it != trades.end(); ++it) {
    Trader* supplier = it->bid->bidder();
    trade_ctx.suppliers.insert(supplier);
    trade_ctx.requesters.insert(it->request->requester());
    trade_ctx.trades_by_supplier[supplier].push_back(*it);
  }'''),
 (TE,'''    typename std::vector< std::pair<Trade<T>, typename T::Ptr> >::iterator r_it;
    for (r_it = responses.begin(); r_it != responses.end(); ++r_it) {''','''    typename std::vector< std::pair<Trade<T>, typename T::Ptr> >::iterator r_it =
        responses.begin();
    for (; r_it != responses.end(); ++r_it) {'''),
 (TE,'''    Trader* requester = *it;
    AcceptTrades(requester, trade_ctx.trades_by_requester[requester]);''','''    AcceptTrades(*it, trade_ctx.trades_by_requester[*it]);'''),
)
v('te2',
 (TE,'''    for (m_it = trade_ctx_.all_trades.begin();
         m_it != trade_ctx_.all_trades.end(); ++m_it) {
      Agent* supplier = m_it->first.first->manager();
      Agent* requester = m_it->first.second->manager();
      typename std::vector< std::pair<Trade<T>, typename T::Ptr> >&
          trades = m_it->second;
      typename std::vector< std::pair<Trade<T>, typename T::Ptr> >::iterator
          v_it;
      for (v_it = trades.begin(); v_it != trades.end(); ++v_it) {
        Trade<T>& trade = v_it->first;
        typename T::Ptr rsrc =  v_it->second;''','''    for (auto& group : trade_ctx_.all_trades) {
      Agent* supplier = group.first.first->manager();
      Agent* requester = group.first.second->manager();
      for (auto& [trade, rsrc] : group.second) {'''),
)
