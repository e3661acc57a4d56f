B='src/toolkit/matl_buy_policy.cc'; BH='src/toolkit/matl_buy_policy.h'; S='src/toolkit/matl_sell_policy.cc'; SH='src/toolkit/matl_sell_policy.h'; EC='src/exchange_context.h'; ET='src/exchange_translator.h'; RM='src/toolkit/res_map.h'
V=[]
def v(name,*e): V.append((name,None,list(e)))
v('buy1',
 (B,'''  if (m != NULL) {
    Trader::manager_ = m;
  }
  else {
    std::stringstream ss;
    ss << "No manager set on Buy Policy " << name_;
    throw ValueError(ss.str());
  }''','''  if (m == NULL) {
    throw ValueError("No manager set on Buy Policy " + name_);
  }
  Trader::manager_ = m;'''),
 (B,'''  if (t == NULL){
    std::vector<ResBuf<Material>*> bufs = {buf_};
    buf_tracker_->Init(bufs, buf_->capacity());
  }
  else if (!t->buf_in_tracker(buf_)) {
    std::stringstream ss;
    ss << "TotalInvTracker does not contain ResBuf used in buy policy";
    throw ValueError(ss.str());
  }
  else {
    buf_tracker_ = t;
  }''','''  if (t != NULL) {
    if (!t->buf_in_tracker(buf_)) {
      throw ValueError("TotalInvTracker does not contain ResBuf used in buy policy");
    }
    buf_tracker_ = t;
    return;
  }
  std::vector<ResBuf<Material>*> bufs;
  bufs.push_back(buf_);
  buf_tracker_->Init(bufs, buf_->capacity());'''),
 (B,'''  if ((inv_policy == "ss")) {
    set_fill_to(fill);
  }
  else if ((inv_policy == "rq") || (inv_policy == "qr")) {
    set_quantize(fill);
    // maximum amount that an RQ policy could achieve is req_at + fill
    set_fill_to(req_at + fill);
  }
  else {
    throw ValueError("Invalid inventory policy");
  }''','''  const bool is_ss = inv_policy == "ss";
  const bool is_rq = inv_policy == "qr" || inv_policy == "rq";
  if (!is_ss && !is_rq) {
    throw ValueError("Invalid inventory policy");
  }
  double target = fill;
  if (is_rq) {
    set_quantize(fill);
    target += req_at;
  }
  set_fill_to(target);'''))
v('buy2',
 (B,'''  if (manager() == NULL) {
    std::stringstream ss;
    ss << "No manager set on Buy Policy " << name_;
    throw ValueError(ss.str());
  }
  manager()->context()->RegisterTrader(this);''','''  CheckManager();
  Context* ctx = manager()->context();
  ctx->RegisterTrader(this);'''),
 (B,'''  if (manager() == NULL) {
    std::stringstream ss;
    ss << "No manager set on Buy Policy " << name_;
    throw ValueError(ss.str());
  }
  manager()->context()->UnregisterTrader(this);''','''  CheckManager();
  manager()->context()->UnregisterTrader(this);'''),
 (B,'''void MatlBuyPolicy::Start() {''','''void MatlBuyPolicy::CheckManager() {
  if (manager() != NULL) return;
  std::stringstream ss;
  ss << "No manager set on Buy Policy " << name_;
  throw ValueError(ss.str());
}

void MatlBuyPolicy::Start() {'''),
 (BH,'''  void set_manager(Agent* m);''','''  void set_manager(Agent* m);
  void CheckManager();'''),
 (B,'''  CommodDetail d;
  d.comp = c;
  d.pref = pref;
  commod_details_[commod] = d;
  return *this;''','''  CommodDetail& d = commod_details_[commod];
  d.comp = c;
  d.pref = pref;
  return *this;'''))
v('buy3',
 (B,'''  double amt = 0;

  int current_time_ = manager()->context()->time();

  double max_request_amt = use_cumulative_capacity() ? cumulative_cap_ - cycle_total_inv_ : std::numeric_limits<double>::max();

  if (MakeReq() && !dormant(current_time_)) {
    amt = std::min(TotalAvailable() * SampleRequestSize(), max_request_amt);
  }
  else { LGH(INFO3) << "in dormant period, no request" << std::endl; }
''','''  double amt = 0;
  const bool active = MakeReq() && !dormant(manager()->context()->time());
  if (!active) {
    LGH(INFO3) << "in dormant period, no request" << std::endl;
  } else {
    amt = TotalAvailable() * SampleRequestSize();
    if (use_cumulative_capacity()) {
      amt = std::min(amt, cumulative_cap_ - cycle_total_inv_);
    }
  }
'''),
 (B,'''    std::map<std::string, CommodDetail>::iterator it;
    for (it = commod_details_.begin(); it != commod_details_.end(); ++it) {
      std::string commod = it->first;
      CommodDetail d = it->second;
      LG(INFO3) << "  - one " << amt << " kg request of " << commod;
      Material::Ptr m = Material::CreateUntracked(req_amt, d.comp);
      Request<Material>* r = port->AddRequest(m, this, commod, d.pref, excl);
      mreqs.push_back(r);
    }''','''    for (const auto& kv : commod_details_) {
      const CommodDetail& d = kv.second;
      Material::Ptr m = Material::CreateUntracked(req_amt, d.comp);
      mreqs.push_back(port->AddRequest(m, this, kv.first, d.pref, excl));
    }'''))
v('buy4',
 (B,'''  std::vector<std::pair<Trade<Material>, Material::Ptr> >::const_iterator it;
  rsrc_commods_.clear();
  for (it = resps.begin(); it != resps.end(); ++it) {
    rsrc_commods_[it->second] = it->first.request->commodity();
    LGH(INFO3) << "got " << it->second->quantity() << " kg of "
               << it->first.request->commodity()  << std::endl;
    // cumulative capacity handling (a bulk buffer empties what it is given)
    if (use_cumulative_capacity()) {
      cycle_total_inv_ += it->second->quantity();
    }
    buf_->Push(it->second);
  }''','''  rsrc_commods_.clear();
  const bool cumulative = use_cumulative_capacity();
  for (size_t i = 0; i < resps.size(); ++i) {
    Material::Ptr mat = resps[i].second;
    if (cumulative) {
      cycle_total_inv_ += mat->quantity();
    }
    rsrc_commods_[mat] = resps[i].first.request->commodity();
    buf_->Push(mat);
  }'''),
 (B,'''  int active_length = active_dist_->sample();
  next_active_end_ = active_length + manager()->context()->time();
  if (manager() != NULL) {
    if (use_cumulative_capacity()) {
      RecordActiveDormantTime(manager()->context()->time(), "CumulativeCap", active_length);
    } else {
      RecordActiveDormantTime(manager()->context()->time(), "Active", active_length);
    }
  }
  return;''','''  const int now = manager()->context()->time();
  const int active_length = active_dist_->sample();
  next_active_end_ = now + active_length;
  if (manager() != NULL) {
    RecordActiveDormantTime(
        now, use_cumulative_capacity() ? "CumulativeCap" : "Active",
        active_length);
  }'''),
 (B,'''  int dormant_length;
  int dormant_start;
  if (use_cumulative_capacity()) {''','''  const bool cumulative = use_cumulative_capacity();
  if (!cumulative && next_dormant_end_ < 0) {
    return;
  }
  int dormant_length = dormant_dist_->sample();
  int dormant_start = cumulative ? manager()->context()->time() + 1
                                 : std::max(next_active_end_, 1);
#if 0
  if (use_cumulative_capacity()) {'''),
 (B,'''  } else { // next_active_end_ < 0 used to indicate always active. Do not enter dormant
    return;
  }
''','''  }
#endif
'''),
 (B,'''  if (manager()->context()->time() == next_dormant_end_) {
    if (use_cumulative_capacity()) { next_dormant_end_ = -1; }
    else { 
        SetNextActiveTime();

      SetNextDormantTime();
      LGH(INFO4) << "end of dormant period, next active time end: " << next_active_end_ << ", and next dormant time end: " << next_dormant_end_ << std::endl;
      }
  }
  return;''','''  if (manager()->context()->time() != next_dormant_end_) {
    return;
  }
  if (use_cumulative_capacity()) {
    next_dormant_end_ = -1;
    return;
  }
  SetNextActiveTime();
  SetNextDormantTime();'''))
v('buy5',
 (B,'''  manager()->context()->NewDatum("BuyPolActiveDormant")
                      ->AddVal("Agent", manager()->id())
                      ->AddVal("Time", time)
                      ->AddVal("Type", type)
                      ->AddVal("Length", length)
                      ->Record();
  return;''','''  Datum* d = manager()->context()->NewDatum("BuyPolActiveDormant");
  d->AddVal("Agent", manager()->id());
  d->AddVal("Time", time);
  d->AddVal("Type", type);
  d->AddVal("Length", length);
  d->Record();'''),
 (B,'''                                   std::string name, TotalInvTracker* buf_tracker,
                                   double throughput, double quantize) {
  set_manager(manager);
  buf_ = buf;
  name_ = name;
  set_total_inv_tracker(buf_tracker);
  set_throughput(throughput);''','''                                   std::string name, TotalInvTracker* buf_tracker,
                                   double throughput, double quantize) {
  InitBase(manager, buf, name, buf_tracker);
  set_throughput(throughput);'''),
 (B,'''                                   std::string name, TotalInvTracker* buf_tracker) {
  set_manager(manager);
  buf_ = buf;
  name_ = name;
  set_total_inv_tracker(buf_tracker);
  init_active_dormant();
  return *this;
}
''','''                                   std::string name, TotalInvTracker* buf_tracker) {
  InitBase(manager, buf, name, buf_tracker);
  init_active_dormant();
  return *this;
}

void MatlBuyPolicy::InitBase(Agent* manager, ResBuf<Material>* buf,
                             const std::string& name, TotalInvTracker* buf_tracker) {
  set_manager(manager);
  buf_ = buf;
  name_ = name;
  set_total_inv_tracker(buf_tracker);
}
'''),
 (BH,'''  void set_manager(Agent* m);''','''  void set_manager(Agent* m);
  void InitBase(Agent* manager, ResBuf<Material>* buf, const std::string& name,
                TotalInvTracker* buf_tracker);'''),
 (B,'''  if (dormant_dist_->sample() < 0) {
    next_dormant_end_ = -1;
    LGH(INFO4) << "dormant length -1, always active" << std::endl;
    }
  else if (use_cumulative_capacity()) {
    next_dormant_end_ = -1;
    LGH(INFO4) << "dormant length set at -1 for first active period of cumulative capacity cycle" << std::endl;
    }
  else {
    SetNextDormantTime();
    LGH(INFO4) << "first dormant time end: " << next_dormant_end_ << std::endl;
  }''','''  const bool always_active = dormant_dist_->sample() < 0;
  if (always_active || use_cumulative_capacity()) {
    next_dormant_end_ = -1;
  } else {
    SetNextDormantTime();
  }'''),
 (B,'''    active_dist_ = boost::shared_ptr<FixedIntDist>(new FixedIntDist(1));''','''    active_dist_.reset(new FixedIntDist(1));'''))
v('sell1',
 (S,'''  if (manager() != NULL) {
    Package::Ptr pkg = manager()->context()->GetPackage(x);
    std::stringstream ss;

    if (quantize_ > 0 && pkg->name() != Package::unpackaged_name()) {
      if (pkg->strategy() == "first" || pkg->strategy() == "equal") {
        std::vector<double> fill = pkg->GetFillMass(quantize_);
        if (fill.size() > 1 ||  std::fmod(fill.front(), quantize_) > 0) {
          ss << "Quantize " << quantize_ 
             << " is not fully packagable based on fill min/max values (" 
             << pkg->fill_min() << ", " << pkg->fill_max() << ")";
          throw ValueError(ss.str());
        }
      } else {
        ss << "Package strategy " << pkg->strategy() 
            << " is not allowed for sell policies with quantize.";
        throw ValueError(ss.str());
      }
    }
    package_ = pkg;
  }''','''  if (manager() == NULL) {
    return;
  }
  Package::Ptr pkg = manager()->context()->GetPackage(x);
  const bool quantized = quantize_ > 0 && pkg->name() != Package::unpackaged_name();
  if (quantized) {
    std::stringstream ss;
    if (pkg->strategy() != "first" && pkg->strategy() != "equal") {
      ss << "Package strategy " << pkg->strategy() 
          << " is not allowed for sell policies with quantize.";
      throw ValueError(ss.str());
    }
    std::vector<double> fill = pkg->GetFillMass(quantize_);
    if (fill.size() > 1 ||  std::fmod(fill.front(), quantize_) > 0) {
      ss << "Quantize " << quantize_ 
         << " is not fully packagable based on fill min/max values (" 
         << pkg->fill_min() << ", " << pkg->fill_max() << ")";
      throw ValueError(ss.str());
    }
  }
  package_ = pkg;'''),
 (S,'''      std::vector<double> fill = package_->GetFillMass(quantize_);
      int num_pkgs = fill.size();
      int max_shippable = tu->MaxShippablePackages(num_pkgs);

      if (max_shippable != num_pkgs)  {''','''      const int num_pkgs = package_->GetFillMass(quantize_).size();
      if (tu->MaxShippablePackages(num_pkgs) != num_pkgs)  {'''))
v('sell2',
 (S,'''  double bcap = buf_->quantity();
  double limit = Excl() ?                                               \\
                 quantize_ * static_cast<int>(std::floor(bcap / quantize_)) : bcap;
  return std::min(throughput_, limit);''','''  double limit = buf_->quantity();
  if (Excl()) {
    limit = quantize_ * static_cast<int>(std::floor(limit / quantize_));
  }
  return std::min(throughput_, limit);'''),
 (S,'''  std::set<std::string>::iterator sit;
  std::vector<Request<Material>*>::const_iterator rit;
  for (sit = commods_.begin(); sit != commods_.end(); ++sit) {
    commod = *sit;
    if (commod_requests.count(commod) < 1)
      continue;

    const std::vector<Request<Material>*>& requests =
        commod_requests.at(commod);
    for (rit = requests.begin(); rit != requests.end(); ++rit) {
      req = *rit;
      qty =''','''  for (const std::string& commod : commods_) {
    CommodMap<Material>::type::iterator cit = commod_requests.find(commod);
    if (cit == commod_requests.end()) {
      continue;
    }
    for (Request<Material>* req : cit->second) {
      qty ='''),
 (S,'''      std::vector<double>::iterator bit;
      for (bit = bids.begin(); bit != bids.end(); ++bit) {
        offer = ignore_comp_ ? \\
                Material::CreateUntracked(*bit, req->target()->comp()) : \\
                Material::CreateUntracked(*bit, m->comp());
        port->AddBid(req, offer, this, excl);
        LG(INFO3) << "  - bid " << *bit << " kg on a request for " << commod;
      }''','''      Composition::Ptr comp = ignore_comp_ ? req->target()->comp() : m->comp();
      for (double amount : bids) {
        offer = Material::CreateUntracked(amount, comp);
        port->AddBid(req, offer, this, excl);
      }'''))
v('sell3',
 (S,'''  for (it = trades.begin(); it != trades.end(); ++it) {
    if (shippable_pkgs > 0){
      qty = it->amt;''','''  for (it = trades.begin(); it != trades.end(); ++it) {
    if (shippable_pkgs <= 0) {
      continue;
    }
    {
      qty = it->amt;'''),
 (S,'''        if (mat_pkgd.size() > 0) {
          // packaging successful
          trade_mat = mat_pkgd[0];
          shippable_pkgs-=1;
        } else {
          // packaging failed. Will need to ship empty trade
          trade_mat = Material::CreateUntracked(0, mat->comp());
        }
''','''        if (mat_pkgd.empty()) {
          trade_mat = Material::CreateUntracked(0, mat->comp());
        } else {
          --shippable_pkgs;
          trade_mat = mat_pkgd.front();
        }
'''),
 (S,'''      if (ignore_comp_ && compmath::AlmostEq(it->request->target()->comp()->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
        trade_mat->Transmute(it->request->target()->comp());
      }
      responses.push_back(std::make_pair(*it, trade_mat));''','''      if (ignore_comp_) {
        Composition::Ptr target = it->request->target()->comp();
        if (compmath::AlmostEq(target->mass(), trade_mat->comp()->mass(), eps_rsrc())) {
          trade_mat->Transmute(target);
        }
      }
      responses.emplace_back(*it, trade_mat);'''))
v('sell4',
 (S,'''      Material::Ptr mat = buf_->Pop(qty, eps_rsrc());
      Material::Ptr trade_mat;

      // don't go through packaging if you don't need to. packaging always bumps
      // resource ids and records on resources table, which is not necessary
      // when nothing is happening
      if (package_->name() != mat->package_name()) { // packaging needed
''','''      Material::Ptr mat = buf_->Pop(qty, eps_rsrc());
      Material::Ptr trade_mat = mat;
      if (package_->name() != mat->package_name()) { // packaging needed
'''),
 (S,'''
      } else { // no packaging needed
        trade_mat = mat;
      }
''','''
      }
'''),
 (S,'''        bids.erase(bids.begin() + shippable_pkgs, bids.end());''','''        bids.resize(shippable_pkgs);'''),
 (S,'''                                     bool ignore_comp) {
  Trader::manager_ = manager;
  buf_ = buf;
  name_ = name;
  set_throughput(throughput);
  set_ignore_comp(ignore_comp);
  return *this;''','''                                     bool ignore_comp) {
  Init(manager, buf, name, throughput);
  set_ignore_comp(ignore_comp);
  return *this;'''))
v('ec1',
 (EC,'''    const std::vector<Request<T>*>& vr = port->requests();
    typename std::vector<Request<T>*>::const_iterator it;

    for (it = vr.begin(); it != vr.end(); ++it) {
      Request<T>* pr = *it;
      AddRequest(*it);
    }''','''    for (Request<T>* pr : port->requests()) {
      AddRequest(pr);
    }'''),
 (EC,'''    requesters.insert(pr->requester());
    commod_requests[pr->commodity()].push_back(pr);''','''    Trader* t = pr->requester();
    commod_requests[pr->commodity()].push_back(pr);
    requesters.insert(t);'''),
 (EC,'''    bids_by_request[pb->request()].push_back(pb);

    double bid_pref = pb->preference();
    trader_prefs[pb->request()->requester()][pb->request()].insert(
        std::make_pair(pb, std::isnan(bid_pref) ? pb->request()->preference() : bid_pref));''','''    Request<T>* req = pb->request();
    bids_by_request[req].push_back(pb);

    double pref = pb->preference();
    if (std::isnan(pref)) {
      pref = req->preference();
    }
    std::map<Bid<T>*, double>& prefs = trader_prefs[req->requester()][req];
    prefs.insert(std::make_pair(pb, pref));'''))
v('ec2',
 (EC,'''    trader_prefs[pb->request()->requester()][pb->request()].insert(
        std::make_pair(pb, std::isnan(bid_pref) ? pb->request()->preference() : bid_pref));''','''    if (std::isnan(bid_pref)) bid_pref = pb->request()->preference();
    typename PrefMap<T>::type& pm = trader_prefs[pb->request()->requester()];
    pm[pb->request()].insert(std::pair<Bid<T>* const, double>(pb, bid_pref));'''))
v('et1',
 (ET,'''    const std::vector<typename RequestPortfolio<T>::Ptr>& requests =
        ex_ctx_->requests;
    typename std::vector<typename RequestPortfolio<T>::Ptr>::const_iterator
        rp_it;
    for (rp_it = requests.begin(); rp_it != requests.end(); ++rp_it) {
      CapacityConstraint<T> c((*rp_it)->qty(), (*rp_it)->qty_converter());
      (*rp_it)->AddConstraint(c);

      RequestGroup::Ptr rs = TranslateRequestPortfolio(xlation_ctx_, *rp_it);
      graph->AddRequestGroup(rs);
    }''','''    for (const auto& rp : ex_ctx_->requests) {
      rp->AddConstraint(CapacityConstraint<T>(rp->qty(), rp->qty_converter()));
      graph->AddRequestGroup(TranslateRequestPortfolio(xlation_ctx_, rp));
    }'''),
 (ET,'''    const std::vector<typename BidPortfolio<T>::Ptr>& bidports = ex_ctx_->bids;
    typename std::vector<typename BidPortfolio<T>::Ptr>::const_iterator bp_it;
    for (bp_it = bidports.begin(); bp_it != bidports.end(); ++bp_it) {
      ExchangeNodeGroup::Ptr ns = TranslateBidPortfolio(xlation_ctx_, *bp_it);
      graph->AddSupplyGroup(ns);

      // add each request-bid arc
      const std::set<Bid<T>*>& bids = (*bp_it)->bids();
      typename std::set<Bid<T>*>::const_iterator b_it;
      for (b_it = bids.begin(); b_it != bids.end(); ++b_it) {
        Bid<T>* bid = *b_it;
        Request<T>* req = bid->request();
        AddArc(req, bid, graph);
      }
    }
''','''    for (const auto& bp : ex_ctx_->bids) {
      AddBids(bp, graph);
    }
'''),
 (ET,'''  void AddArc(Request<T>* req, Bid<T>* bid, ExchangeGraph::Ptr graph) {''','''  void AddBids(typename BidPortfolio<T>::Ptr bp, ExchangeGraph::Ptr graph) {
    ExchangeNodeGroup::Ptr ns = TranslateBidPortfolio(xlation_ctx_, bp);
    graph->AddSupplyGroup(ns);
    for (Bid<T>* bid : bp->bids()) {
      AddArc(bid->request(), bid, graph);
    }
  }

  void AddArc(Request<T>* req, Bid<T>* bid, ExchangeGraph::Ptr graph) {'''))
v('et2',
 (ET,'''    if (pref < 0) {
      CLOG(LEV_DEBUG1) << "Removing arc because of negative preference.";
      return;
    } else if (pref == 0) {
      std::stringstream ss;
      ss << "0-valued preferences have been deprecated. "
         << "Please make preference value positive."
         << "This message will go away in before the next release (1.5).";
      throw ValueError(ss.str());
    }
''','''    if (pref == 0) {
      throw ValueError("0-valued preferences have been deprecated. "
         "Please make preference value positive."
         "This message will go away in before the next release (1.5).");
    }
    if (pref < 0) {
      return;
    }
'''),
 (ET,'''    a.unode()->prefs[a] = pref;  // request node is a.unode()
    int n_prefs = a.unode()->prefs.size();
''','''    ExchangeNode::Ptr u = a.unode();
    u->prefs[a] = pref;
'''),
 (ET,'''    for (m_it = matches.begin(); m_it != matches.end(); ++m_it) {
      ret.push_back(BackTranslateMatch(xlation_ctx_, *m_it));
    }''','''    ret.reserve(ret.size() + matches.size());
    for (const Match& m : matches) {
      Trade<T> t = BackTranslateMatch(xlation_ctx_, m);
      ret.push_back(t);
    }'''),
 (ET,'''  Trade<T> t;
  t.request = translation_ctx.node_to_request.at(req_node);
  t.bid = translation_ctx.node_to_bid.at(bid_node);
  t.amt = match.second;
  return t;''','''  Trade<T> t;
  t.amt = match.second;
  t.bid = translation_ctx.node_to_bid.at(bid_node);
  t.request = translation_ctx.node_to_request.at(req_node);
  return t;'''))
v('et3',
 (ET,'''  typename std::vector<Request<T>*>::const_iterator r_it;
  for (r_it = rp->requests().begin();
       r_it != rp->requests().end();
       ++r_it) {
    Request<T>* r = *r_it;
    ExchangeNode::Ptr n(
        new ExchangeNode(r->target()->quantity(),
                         r->exclusive(),
                         r->commodity(),
                         r->requester()->manager()->id()));
    rs->AddExchangeNode(n);

    AddRequest(translation_ctx, *r_it, n);
  }
''','''  const std::vector<Request<T>*>& reqs = rp->requests();
  for (size_t i = 0; i < reqs.size(); ++i) {
    Request<T>* r = reqs[i];
    const int agent_id = r->requester()->manager()->id();
    ExchangeNode::Ptr n(
        new ExchangeNode(r->target()->quantity(), r->exclusive(), r->commodity(), agent_id));
    AddRequest(translation_ctx, r, n);
    rs->AddExchangeNode(n);
  }
'''),
 (ET,'''  typename std::set<Bid<T>*>::const_iterator b_it;
  for (b_it = bp->bids().begin();
       b_it != bp->bids().end();
       ++b_it) {
    Bid<T>* b = *b_it;
    ExchangeNode::Ptr n(''','''  for (Bid<T>* b : bp->bids()) {
    ExchangeNode::Ptr n('''),
 (ET,'''    AddBid(translation_ctx, *b_it, n);
    if (b->exclusive()) {
      excl_bid_grps[b->offer()].push_back(n);
    }''','''    if (b->exclusive()) {
      excl_bid_grps[b->offer()].push_back(n);
    }
    AddBid(translation_ctx, b, n);'''),
 (ET,'''  typename std::map<typename T::Ptr, std::vector<ExchangeNode::Ptr> >::iterator
      m_it;
  for (m_it = excl_bid_grps.begin();
       m_it != excl_bid_grps.end();
       ++m_it) {
    bs->AddExclGroup(m_it->second);
  }
''','''  for (auto& grp : excl_bid_grps) {
    bs->AddExclGroup(grp.second);
  }
'''),
 (ET,'''    n->unit_capacities[a].push_back(it->convert(offer, &a, &ctx) /
                                    offer->quantity());''','''    const double converted = it->convert(offer, &a, &ctx);
    n->unit_capacities[a].push_back(converted / offer->quantity());'''))
v('et4',
 (ET,'''  return TranslateArc<T>(translation_ctx, bid, 1);''','''  const double unit_pref = 1;
  return TranslateArc<T>(translation_ctx, bid, unit_pref);'''),
 (ET,'''  typename T::Ptr offer = bid->offer();
  typename BidPortfolio<T>::Ptr bp = bid->portfolio();
  typename RequestPortfolio<T>::Ptr rp = req->portfolio();

  // bid is v
  TranslateCapacities(offer, bp->constraints(), vnode, arc, translation_ctx);
  // req is u
  TranslateCapacities(offer, rp->constraints(), unode, arc, translation_ctx);
''','''  typename T::Ptr offer = bid->offer();
  TranslateCapacities(offer, bid->portfolio()->constraints(), vnode, arc, translation_ctx);
  TranslateCapacities(offer, req->portfolio()->constraints(), unode, arc, translation_ctx);
'''),
 (ET,'''  typename std::set< CapacityConstraint<T> >::const_iterator it;
  for (it = constr.begin(); it != constr.end(); ++it) {
    CLOG(cyclus::LEV_DEBUG1) << "Additing unit capacity: "
                             << it->convert(offer, &a, &ctx) / offer->quantity();
    n->unit_capacities[a].push_back(it->convert(offer, &a, &ctx) /
                                    offer->quantity());
  }''','''  std::vector<double>& ucaps = n->unit_capacities[a];
  for (const CapacityConstraint<T>& c : constr) {
    ucaps.push_back(c.convert(offer, &a, &ctx) / offer->quantity());
  }'''))
v('rm1',
 (RM,'''    iterator it = resources_.begin();
    for (; it != resources_.end(); ++it) {
      obj_ids_[it->first] = it->second->obj_id();
    }
    return obj_ids_;''','''    for (const auto& kv : resources_) {
      obj_ids_[kv.first] = kv.second->obj_id();
    }
    return obj_ids_;'''),
 (RM,'''    int i = 0;
    int n = resources_.size();
    std::vector<typename R::Ptr> vals (n);
    iterator it = resources_.begin();
    while (it != resources_.end()) {
      vals[i] = it->second;
      ++i;
      ++it;
    }
    return vals;''','''    std::vector<typename R::Ptr> vals;
    vals.reserve(resources_.size());
    for (iterator it = resources_.begin(); it != resources_.end(); ++it) {
      vals.push_back(it->second);
    }
    return vals;'''),
 (RM,'''    iterator it = resources_.begin();
    int i = 0;
    int n = resources_.size();
    if (n == 0) {
      quantity_ = 0.0;
    } else {
      vector<double> qtys (n, 0.0);
      while (it != resources_.end()) {
        qtys[i] = (*(it->second)).quantity();
        ++i;
        ++it;
      }
      quantity_ = CycArithmetic::KahanSum(qtys);
    }
    dirty_quantity_ = false;''','''    dirty_quantity_ = false;
    if (resources_.empty()) {
      quantity_ = 0.0;
      return;
    }
    vector<double> qtys;
    for (const auto& kv : resources_) {
      qtys.push_back(kv.second->quantity());
    }
    quantity_ = CycArithmetic::KahanSum(qtys);'''))
v('rm2',
 (RM,'''    std::map<int, K> lookup;
    obj_iterator oit = obj_ids_.begin();
    for (; oit != obj_ids_.end(); ++oit) {
      lookup[oit->second] = oit->first;
    }
    int i = 0;
    int n = vals.size();
    for (; i < n; ++i) {
      resources_[lookup[vals[i]->obj_id()]] = vals[i];
    }
    dirty_quantity_ = true;''','''    std::map<int, K> key_of;
    for (const auto& kv : obj_ids_) {
      key_of[kv.second] = kv.first;
    }
    for (const typename R::Ptr& r : vals) {
      const K& k = key_of[r->obj_id()];
      resources_[k] = r;
    }
    dirty_quantity_ = true;'''),
 (RM,'''    typename R::Ptr val = it->second;
    resources_.erase(it);
    dirty_quantity_ = true;
    return val;''','''    dirty_quantity_ = true;
    typename R::Ptr val = it->second;
    resources_.erase(key);
    return val;'''),
 (RM,'''    typename map_type::size_type s = resources_.erase(k);
    UpdateQuantity();
    return s;''','''    const auto n_erased = resources_.erase(k);
    UpdateQuantity();
    return n_erased;'''),
 (RM,'''    if (dirty_quantity_)
      UpdateQuantity();
    return quantity_;''','''    if (!dirty_quantity_)
      return quantity_;
    UpdateQuantity();
    return quantity_;'''))
