V=[]
def v(name,*e): V.append((name,None,list(e)))
BM='src/toolkit/building_manager.cc'
v('bm1',(BM,'''  if (demand > 0) {
    OsiCbcSolverInterface iface;
    ProgTranslatorContext ctx;
    std::map<CommodityProducer*, Builder*> p_to_b;
    std::map<int, CommodityProducer*> idx_to_p;
    SetUp_(iface, ctx, p_to_b, idx_to_p, commodity, demand);
    Solve_(iface, ctx, p_to_b, idx_to_p, orders);
  }
  return orders;
''','''  if (!(demand > 0)) {
    return orders;
  }
  OsiCbcSolverInterface iface;
  ProgTranslatorContext ctx;
  std::map<int, CommodityProducer*> idx_to_p;
  std::map<CommodityProducer*, Builder*> p_to_b;
  SetUp_(iface, ctx, p_to_b, idx_to_p, commodity, demand);
  Solve_(iface, ctx, p_to_b, idx_to_p, orders);
  return orders;
'''),(BM,'''      if (p->Produces(commodity)) {
        ctx.obj_coeffs.push_back(p->Cost(commodity));
        caps.insert(idx, p->Capacity(commodity));
        ctx.col_lbs.push_back(0);
        ctx.col_ubs.push_back(inf);
        p_to_b[p] = b;
        idx_to_p[idx] = p;
        idx++;
      }
''','''      if (!p->Produces(commodity)) {
        continue;
      }
      p_to_b[p] = b;
      idx_to_p[idx] = p;
      ctx.col_lbs.push_back(0);
      ctx.col_ubs.push_back(inf);
      ctx.obj_coeffs.push_back(p->Cost(commodity));
      caps.insert(idx, p->Capacity(commodity));
      ++idx;
'''),(BM,'''  for (int i = 0; i != nvar; i++) {
    n = static_cast<int>(sol[i]);
    if (n > 0) {
      p = idx_to_p[i];
      b = p_to_b[p];
      orders.push_back(BuildOrder(n, b, p));
    }
  }
''','''  for (int i = 0; i < nvar; ++i) {
    const int count = static_cast<int>(sol[i]);
    if (count <= 0) continue;
    CommodityProducer* cp = idx_to_p[i];
    BuildOrder order(count, p_to_b[cp], cp);
    orders.push_back(order);
  }
'''))
v('bm2',(BM,'''  for (bit = builders_.begin(); bit != builders_.end(); ++bit) {
    b = *bit;
    for (pit = b->producers().begin(); pit != b->producers().end(); ++pit) {
      p = *pit;
''','''  for (Builder* bb : builders_) {
    b = bb;
    for (CommodityProducer* pp : b->producers()) {
      p = pp;
'''),(BM,'''  ctx.row_ubs.push_back(inf);
  ctx.row_lbs.push_back(demand);
''','''  ctx.row_lbs.push_back(demand);
  ctx.row_ubs.push_back(inf);
'''))
CP='src/toolkit/commodity_producer.cc'
v('cp1',(CP,'''  for (it = commodities_.begin(); it != commodities_.end(); it++) {
    commodities.insert(it->first);
  }
''','''  for (const auto& kv : commodities_) {
    commodities.insert(kv.first);
  }
'''),(CP,'''    Add(*it);
    SetCapacity(*it, source->Capacity(*it));
    SetCost(*it, source->Cost(*it));
''','''    const Commodity& c = *it;
    Add(c);
    SetCost(c, source->Cost(c));
    SetCapacity(c, source->Capacity(c));
'''))
BP='src/bid_portfolio.h'
v('bp1',(BP,'''    VerifyResponder_(b);
    if (offer->quantity() > 0)
      bids_.insert(b);
    else {
      std::stringstream ss;
      ss << GetTraderPrototype(bidder) << " from " << GetTraderSpec(bidder)
         << " is offering a bid quantity <= 0, Q = " << offer->quantity();
      throw ValueError(ss.str());
    }
    return b;
''','''    VerifyResponder_(b);
    if (!(offer->quantity() > 0)) {
      std::stringstream ss;
      ss << GetTraderPrototype(bidder) << " from " << GetTraderSpec(bidder)
         << " is offering a nonpositive quantity, Q = " << offer->quantity();
      throw ValueError(ss.str());
    }
    bids_.insert(b);
    return b;
'''),(BP,'''    typename std::set<Bid<T>*>::iterator it;
    for (it = bids_.begin(); it != bids_.end(); ++it) {
      delete *it;
    }
''','''    for (Bid<T>* bid : bids_) {
      delete bid;
    }
'''),(BP,'''    if (bidder_ == NULL) {
      bidder_ = b->bidder();
    } else if (bidder_ != b->bidder()) {
      std::string msg = "Insertion error: bidders do not match.";
      throw KeyError(msg);
    }
''','''    Trader* who = b->bidder();
    if (!bidder_) {
      bidder_ = who;
      return;
    }
    if (bidder_ != who) {
      throw KeyError("Insertion error: bidders do not match.");
    }
'''))
RP='src/request_portfolio.h'
v('rp1',(RP,'''    VerifyRequester_(r);
    requests_.push_back(r);
    mass_coeffs_[r] = 1;
    qty_ += target->quantity();
    return r;
''','''    VerifyRequester_(r);
    qty_ = qty_ + target->quantity();
    mass_coeffs_.insert(std::make_pair(r, 1.0));
    requests_.push_back(r);
    return r;
'''))
v('rp2',(RP,'''    double qty;
    Request<T>* r;
    for (int i = 0; i < rs.size(); i++) {
      r = rs[i];
      qty = r->target()->quantity();
      mass_coeffs_[r] = avg_qty / qty;
      qty_ -= qty;
    }
    qty_ += avg_qty;
''','''    for (Request<T>* req : rs) {
      const double q = req->target()->quantity();
      qty_ -= q;
      mass_coeffs_[req] = avg_qty / q;
    }
    qty_ += avg_qty;
'''),(RP,'''    double avg_qty =
        std::accumulate(rs.begin(), rs.end(), 0.0, SumQty<T>) / rs.size();
''','''    double total = 0;
    for (size_t i = 0; i < rs.size(); ++i) {
      total += rs[i]->target()->quantity();
    }
    double avg_qty = total / rs.size();
'''),(RP,'''    if (requester_ == NULL) {
      requester_ = r->requester();
    } else if (requester_ != r->requester()) {
      std::string msg = "Insertion error: requesters do not match.";
      throw KeyError(msg);
    }
''','''    if (requester_ != NULL && requester_ != r->requester()) {
      throw KeyError("Insertion error: requesters do not match.");
    }
    if (requester_ == NULL) {
      requester_ = r->requester();
    }
'''))
PT='src/prog_translator.cc'
v('pt1',(PT,'''  int nfalse = 0;
  std::vector<RequestGroup::Ptr>& rgs = g_->request_groups();
  for (int i = 0; i != g_->request_groups().size(); ++i)
    nfalse += rgs[i].get()->HasArcs() ? 1 : 0;
  int n_cols = g_->arcs().size() + nfalse;
''','''  std::vector<RequestGroup::Ptr>& rgs = g_->request_groups();
  int n_cols = g_->arcs().size();
  for (int i = 0; i < rgs.size(); ++i) {
    if (rgs[i]->HasArcs()) {
      ++n_cols;
    }
  }
'''),(PT,'''  bool request;
  std::vector<ExchangeNodeGroup::Ptr>& sgs = g_->supply_groups();
  for (int i = 0; i != sgs.size(); i++) {
    request = false;
    XlateGrp_(sgs[i].get(), request);
  }

  for (int i = 0; i != rgs.size(); i++) {
    request = true;
    XlateGrp_(rgs[i].get(), request);
  }
''','''  std::vector<ExchangeNodeGroup::Ptr>& sgs = g_->supply_groups();
  for (ExchangeNodeGroup::Ptr& sg : sgs) {
    XlateGrp_(sg.get(), false);
  }
  for (RequestGroup::Ptr& rg : rgs) {
    XlateGrp_(rg.get(), true);
  }
'''),(PT,'''    if (flow > cyclus::eps()) {
      g_->AddMatch(a, flow);
    }
''','''    if (flow <= cyclus::eps()) continue;
    g_->AddMatch(a, flow);
'''))
v('pt2',(PT,'''        double coeff = ucaps[j];
        if (excl_ && a.exclusive()) {
          coeff *= a.excl_val();
        }

        cap_rows[j].insert(arc_id, coeff);
''','''        const bool whole = excl_ && a.exclusive();
        cap_rows[j].insert(arc_id, whole ? ucaps[j] * a.excl_val() : ucaps[j]);
'''),(PT,'''    double rlb = std::min(caps[i], 1e15);
    ctx_.row_lbs.push_back(request ? rlb : 0);
    ctx_.row_ubs.push_back(request ? inf : caps[i]);
    ctx_.m.appendRow(cap_rows[i]);
''','''    if (request) {
      double rlb = caps[i] < 1e15 ? caps[i] : 1e15;
      ctx_.row_lbs.push_back(rlb);
      ctx_.row_ubs.push_back(inf);
    } else {
      ctx_.row_lbs.push_back(0);
      ctx_.row_ubs.push_back(caps[i]);
    }
    ctx_.m.appendRow(cap_rows[i]);
'''),(PT,'''  if (pref <= 0) {
    std::stringstream ss;''','''  if (!(pref <= 0)) {
    return;
  }
  {
    std::stringstream ss;'''))
TI='src/toolkit/total_inv_tracker.h'
v('ti1',(TI,'''        if (bufs.size() == 0) {
            throw ValueError("TotalInvTracker must be initialized with at least one ResBuf");
        }
        bufs_ = bufs;
        if (max_inv_size <= 0) {
            throw ValueError("TotalInvTracker must be initialized with a positive capacity");
        }
        max_inv_size_ = max_inv_size;
''','''        if (bufs.empty()) {
            throw ValueError("TotalInvTracker needs at least one ResBuf");
        }
        bufs_ = bufs;
        if (!(max_inv_size > 0)) {
            throw ValueError("TotalInvTracker must be initialized with a positive capacity");
        }
        max_inv_size_ = max_inv_size;
'''),(TI,'''        int num = num_bufs();
        qty_ = 0;
        for (int i = 0; i < num; i++) {
            qty_ += bufs_[i]->quantity();
        }
        return qty_;
''','''        num_bufs();
        double total = 0;
        for (ResBuf<Material>* b : bufs_) {
            total += b->quantity();
        }
        qty_ = total;
        return qty_;
'''),(TI,'''        for (int i = 0; i < num_bufs(); i++) {
            if (bufs_[i] == buf) { return true; }
        }
        return false;
''','''        bool found = false;
        const int n = num_bufs();
        for (int i = 0; i < n; i++) {
            if (bufs_[i] == buf) { found = true; break; }
        }
        return found;
'''))
SF='src/toolkit/symbolic_functions.cc'
v('sf1',(SF,'''  double ret;
  if (functions_.empty() || (x < functions_.front().xoffset)) {
    ret = 0.0;
  } else {
    std::list<PiecewiseFunctionInfo>::iterator f = functions_.begin();
    while (f != functions_.end() && (x >= f->xoffset)) {
      ++f;  // exceeds search by 1
    }
    --f;  // go back to the correct one
    ret = f->function->value(x - f->xoffset) + f->yoffset;
  }
  return ret;
''','''  if (functions_.empty()) {
    return 0.0;
  }
  if (x < functions_.front().xoffset) {
    return 0.0;
  }
  std::list<PiecewiseFunctionInfo>::iterator f = functions_.begin();
  while (f != functions_.end() && (x >= f->xoffset)) {
    ++f;
  }
  --f;
  return f->yoffset + f->function->value(x - f->xoffset);
'''))
EN='src/toolkit/enrichment.cc'
v('en1',(EN,'''  if (u235 + u238 > 0) {
    value = u235 / (u235 + u238);
  } else {
    value = 0;
  }
  return value;
}

// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
double UraniumAssayMass''','''  const double u = u235 + u238;
  value = u > 0 ? u235 / u : 0;
  return value;
}

// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
double UraniumAssayMass'''),(EN,'''  double factor =
      (assays.Product() - assays.Tails())
      /
      (assays.Feed() - assays.Tails());
  return product_qty * factor;
''','''  const double xp = assays.Product();
  const double xf = assays.Feed();
  const double xt = assays.Tails();
  return product_qty * ((xp - xt) / (xf - xt));
'''),(EN,'''  double swu =
      product_qty * ValueFunc(assays.Product()) +
      tails * ValueFunc(assays.Tails()) -
      feed * ValueFunc(assays.Feed());
  return swu;
''','''  double out = product_qty * ValueFunc(assays.Product()) +
               tails * ValueFunc(assays.Tails());
  return out - feed * ValueFunc(assays.Feed());
'''))
MQ='src/toolkit/mat_query.cc'
v('mq1',(MQ,'''  double m_tot = 0;
  std::set<Nuc>::iterator it ;
  for (it = nucs.begin(); it != nucs.end(); ++it) {
    m_tot += mass(*it);
  }
  return m_tot/qty();
''','''  double sum = 0;
  for (Nuc nuc : nucs) {
    sum += mass(nuc);
  }
  return sum / qty();
'''),(MQ,'''    if (v.find(*it) != v.end()){
      frac_tot += v[*it];
    }
''','''    CompMap::iterator found = v.find(*it);
    if (found == v.end()) continue;
    frac_tot += found->second;
'''),(MQ,'''    double ratio = qty / qty_other;
    if (ratio < min_ratio) {
      min_ratio = ratio;
      limiter = nuc;
    }
''','''    min_ratio = std::min(min_ratio, qty / qty_other);
'''),(MQ,'''  Nuc limiter;
''',''))
PO='src/toolkit/position.cc'
v('po1',(PO,'''void Position::set_position(double lat, double lon) {
  LatCheck(lat);
  LonCheck(lon);
  latitude_ = SetPrecision(lat * CYCLUS_DECIMAL_SECOND_MULTIPLIER, 1);
  longitude_ = SetPrecision(lon * CYCLUS_DECIMAL_SECOND_MULTIPLIER, 1);
}
''','''void Position::set_position(double lat, double lon) {
  LatCheck(lat);
  LonCheck(lon);
  const double lon_sec = lon * CYCLUS_DECIMAL_SECOND_MULTIPLIER;
  const double lat_sec = lat * CYCLUS_DECIMAL_SECOND_MULTIPLIER;
  longitude_ = SetPrecision(lon_sec, 1);
  latitude_ = SetPrecision(lat_sec, 1);
}
'''),(PO,'''  if (lat > 90 || lat < -90){
''','''  const bool out = lat < -90 || lat > 90;
  if (out) {
'''),(PO,'''  std::stringstream temp;
  if (value > 0) {
    temp << "+";
  } else {
    temp << "-";
  }
  return temp.str();
''','''  return value > 0 ? "+" : "-";
'''))
RN='src/random_number_generator.cc'
v('rn1',(RN,'''        double val = dist(RandomNumberGenerator::gen_);
        while (val < min_ || val > max_){
            val = dist(RandomNumberGenerator::gen_);
        }
        return val;
''','''        for (;;) {
            double val = dist(RandomNumberGenerator::gen_);
            if (val >= min_ && val <= max_) {
                return val;
            }
        }
'''),(RN,'''        int rounded_val = std::lrint(val);
        return rounded_val;
''','''        return std::lrint(val);
'''))
v('rn2',(RN,'''        double val = rn();
        while (val < low || val > high){
            val = rn();
        }
        return val;
''','''        double val;
        do {
            val = rn();
        } while (val < low || val > high);
        return val;
'''))
