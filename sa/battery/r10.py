V=[]
def v(name,*e): V.append((name,None,list(e)))
T='src/infile_tree.cc'; X='src/xml_parser.cc'; M='src/exchange_manager.h'; E_='src/exchange_solver.cc'; D='src/datum.cc'; PS='src/prog_solver.cc'; SF='src/solver_factory.cc'; I='src/institution.cc'; F='src/facility.cc'; C='src/toolkit/commodity_recipe_context.cc'; SD='src/toolkit/supply_demand_manager.cc'; SY='src/toolkit/symbolic_function_factories.cc'; R='src/region.cc'
v('tree1',(T,'''  int n = 0;
  const xmlpp::Node::NodeList nodelist = current_node_->get_children();
  xmlpp::Node::NodeList::const_iterator it;
  for (it = nodelist.begin(); it != nodelist.end(); it++) {
    const Element* element = dynamic_cast<const Element*>(*it);
    if (element) {
      n++;
    }
  }
  return n;
''','''  int count = 0;
  for (const xmlpp::Node* child : current_node_->get_children()) {
    if (dynamic_cast<const Element*>(child) == NULL) continue;
    ++count;
  }
  return count;
'''))
v('tree2',(T,'''  if (nodeset.empty()) {
    throw KeyError("Could not find a node by the name: " + query);
  }

  if (nodeset.size() < index + 1) {
    throw ValueError("Index exceeds number of nodes in query: " + query);
  }

  const Element* element =
    dynamic_cast<const Element*>(nodeset.at(index));
''','''  const int nfound = nodeset.size();
  if (nfound == 0) {
    throw KeyError("Could not find a node by the name: " + query);
  } else if (nfound <= index) {
    throw ValueError("Index exceeds number of nodes in query: " + query);
  }

  const Element* element = dynamic_cast<const Element*>(nodeset[index]);
'''))
v('tree3',(T,'''  InfileTree* qe_child =
    GetEngineFromQuery(query, index);
  spawned_children_.insert(qe_child);
  return qe_child;
''','''  return *spawned_children_.insert(GetEngineFromQuery(query, index)).first;
'''))
v('tree4',(T,'''  while (!spawned_children_.empty()) {
    InfileTree* qe_child = *spawned_children_.begin();
    spawned_children_.erase(spawned_children_.begin());
    if (qe_child) {
      delete qe_child;
    }
  }
''','''  for (InfileTree* child : spawned_children_) {
    delete child;
  }
  spawned_children_.clear();
'''))
v('parser1',(X,'''  if (parser_ != NULL) {
    delete parser_;
  }
  parser_ = new xmlpp::DomParser();
''','''  delete parser_;
  parser_ = new xmlpp::DomParser();
'''),(X,'''  NodeSet::iterator it = have_base.begin();
  for (; it != have_base.end(); ++it) {
    reinterpret_cast<xmlpp::Element*>(*it)->remove_attribute("base", "xml");
  }
''','''  for (size_t i = 0; i < have_base.size(); ++i) {
    reinterpret_cast<xmlpp::Element*>(have_base[i])->remove_attribute("base", "xml");
  }
'''))
v('mgr1',(M,'''    if (exchng.Empty())
      return; // empty exchange, move on

    // translate graph
    ExchangeTranslator<T> xlator(&exchng.ex_ctx());
    CLOG(LEV_DEBUG1) << "translating graph...";
    ExchangeGraph::Ptr graph = xlator.Translate();
    CLOG(LEV_DEBUG1) << "graph translated!";

    // solve graph
    CLOG(LEV_DEBUG1) << "solving graph...";
    ctx_->solver()->Solve(graph.get());
    CLOG(LEV_DEBUG1) << "graph solved!";

    // get trades
    std::vector< Trade<T> > trades;
    xlator.BackTranslateSolution(graph->matches(), trades);
    CLOG(LEV_DEBUG1) << "trades translated!";

    // execute trades!
    TradeExecutor<T> exec(trades);
    exec.ExecuteTrades(ctx_);
  }

 private:
''','''    if (!exchng.Empty()) {
      SolveAndTrade(exchng);
    }
  }

 private:
  void SolveAndTrade(ResourceExchange<T>& exchng) {
    ExchangeTranslator<T> xlator(&exchng.ex_ctx());
    ExchangeGraph::Ptr graph = xlator.Translate();
    ctx_->solver()->Solve(graph.get());
    std::vector< Trade<T> > trades;
    xlator.BackTranslateSolution(graph->matches(), trades);
    TradeExecutor<T> exec(trades);
    exec.ExecuteTrades(ctx_);
  }

'''))
v('mgr2',(M,'''      std::vector<Request<T>*> reqs = (*it)->requests();
      typename std::vector<Request<T>*>::iterator it2;
      for (it2 = reqs.begin(); it2 != reqs.end(); ++it2) {
        Request<T>* r = *it2;
        std::stringstream ss;
''','''      for (Request<T>* r : (*it)->requests()) {
        std::stringstream ss;
'''),(M,'''        Bid<T>* b = *it4;
        Request<T>* r = b->request();
        double pref = exctx.trader_prefs[r->requester()][r][b];
        std::stringstream ss;
        ss << ctx_->time() << "_" << b->request();
''','''        Bid<T>* b = *it4;
        Request<T>* r = b->request();
        std::stringstream ss;
        ss << ctx_->time() << "_" << r;
        double pref = exctx.trader_prefs[r->requester()][r][b];
'''))
v('solv1',(E_,'''  return (exclusive_orders && a.exclusive()) ?
      a.excl_val() / a.pref() : 1.0 / a.pref();
''','''  double numer = 1.0;
  if (exclusive_orders && a.exclusive()) {
    numer = a.excl_val();
  }
  return numer / a.pref();
'''),(E_,'''  for (int i = 0; i != arcs.size(); i++) {
    const Arc& a = arcs[i];
    // remove exclusive value factor from costs for preferences that are less
    // than unity. otherwise they can artificially raise the maximum cost.
    double factor = (a.exclusive() && a.excl_val() < 1) ? 1 / a.excl_val() : 1.0;
    max_cost = std::max(max_cost, ArcCost(a) * factor);
  }
''','''  for (std::vector<Arc>::const_iterator it = arcs.begin(); it != arcs.end(); ++it) {
    double factor = 1.0;
    if (it->exclusive() && it->excl_val() < 1) {
      factor = 1 / it->excl_val();
    }
    const double cost = ArcCost(*it) * factor;
    if (cost > max_cost) {
      max_cost = cost;
    }
  }
'''))
v('solv2',(E_,'''    for (n_it = nodes.begin(); n_it != nodes.end(); ++n_it) {
      // update min_unit_cap
      std::map<Arc, std::vector<double> >::iterator c_it;
      std::map<Arc, std::vector<double> >& caps = (*n_it)->unit_capacities;
      for (c_it = caps.begin(); c_it != caps.end(); ++c_it) {
        std::vector<double>& ucaps = c_it->second;
        if (!ucaps.empty()) {
          min_cap = *std::min_element(ucaps.begin(), ucaps.end());
          if (min_cap < min_unit_cap)
            min_unit_cap = min_cap;
        }
      }
    }
  }
''','''    for (n_it = nodes.begin(); n_it != nodes.end(); ++n_it) {
      UpdateMin((*n_it)->unit_capacities, min_unit_cap);
    }
  }
'''),(E_,'''double ExchangeSolver::PseudoCostByCap(''','''namespace {
void UpdateMin(std::map<Arc, std::vector<double> >& caps, double& lowest) {
  std::map<Arc, std::vector<double> >::iterator c_it;
  for (c_it = caps.begin(); c_it != caps.end(); ++c_it) {
    std::vector<double>& ucaps = c_it->second;
    if (ucaps.empty()) continue;
    double m = *std::min_element(ucaps.begin(), ucaps.end());
    if (m < lowest)
      lowest = m;
  }
}
}  // namespace

double ExchangeSolver::PseudoCostByCap('''))
v('datum1',(D,'''  std::vector<int> s;
  if (shape == NULL)
    shapes_.push_back(s);
  else
    shapes_.push_back(*shape);
  return this;
''','''  shapes_.push_back(shape != NULL ? *shape : std::vector<int>());
  return this;
'''))
v('prog1',(PS,'''    CoinMessageHandler h;
    h.setLogLevel(0);
    if (verbose_) {
      Report(iface_);
      h.setLogLevel(4);
    }
    iface_->passInMessageHandler(&h);
''','''    CoinMessageHandler h;
    if (verbose_) {
      Report(iface_);
      h.setLogLevel(4);
    } else {
      h.setLogLevel(0);
    }
    iface_->passInMessageHandler(&h);
'''))
v('prog2',(PS,'''  double ret = iface_->getObjValue();
  delete iface_;
  return ret;
''','''  const double objective = iface_->getObjValue();
  delete iface_;
  return objective;
'''),(PS,'''    GreedySolver greedy(exclusive_orders_);
    double greedy_obj = greedy.Solve(graph_);
    graph_->ClearMatches();

    // translate graph to iface_ instance
    double pseudo_cost = PseudoCost(); // from ExchangeSolver API
    ProgTranslator xlator(graph_, iface_, exclusive_orders_, pseudo_cost);
''','''    GreedySolver greedy(exclusive_orders_);
    const double greedy_obj = greedy.Solve(graph_);
    graph_->ClearMatches();

    ProgTranslator xlator(graph_, iface_, exclusive_orders_, PseudoCost());
'''))
v('sf1',(SF,'''  int i = 0;
  for (i = 0; i != si->getNumCols(); i++) {
    if (si->isInteger(i)) {
      return true;
    }
  }
  return false;
''','''  const int ncol = si->getNumCols();
  bool has = false;
  for (int i = 0; i < ncol && !has; ++i) {
    has = si->isInteger(i);
  }
  return has;
'''),(SF,'''  if (t_ == "clp" || t_ == "cbc") {
    OsiClpSolverInterface* s = new OsiClpSolverInterface();
    s->getModelPtr()->setMaximumSeconds(tmax_);
    return s;
  } else {
    throw ValueError("invalid SolverFactory type '" + t_ + "'");
  }
''','''  if (t_ != "clp" && t_ != "cbc") {
    throw ValueError("invalid SolverFactory type '" + t_ + "'");
  }
  OsiClpSolverInterface* s = new OsiClpSolverInterface();
  s->getModelPtr()->setMaximumSeconds(tmax_);
  return s;
'''))
v('sf2',(SF,'''  if (!found_ && (e == solution || e == heuristicSolution)) {
    const CbcModel* m = getModel();
    double cbcobj = m->getObjValue();
    if (cbcobj < obj_) {
      time_ = CoinCpuTime() -
              m->getDblParam(CbcModel::CbcStartSeconds);
      found_ = true;
    }
  }
  return noAction;
''','''  const bool newsoln = e == solution || e == heuristicSolution;
  if (found_ || !newsoln) {
    return noAction;
  }
  const CbcModel* m = getModel();
  if (m->getObjValue() < obj_) {
    found_ = true;
    time_ = CoinCpuTime() - m->getDblParam(CbcModel::CbcStartSeconds);
  }
  return noAction;
'''))
v('inst1',(I,'''  std::set<Agent*>::iterator it;
  for (it = children().begin(); it != children().end(); ++it) {
    Agent* a = *it;
    if (a->lifetime() != -1 && context()->time() >= a->exit_time()) {
      Facility* fac = dynamic_cast<Facility*>(a);
      if (fac == NULL || fac->CheckDecommissionCondition()) {
        CLOG(LEV_INFO3) << a->prototype()
                        << " has reached the end of its lifetime";
        context()->SchedDecom(a);
      }
    }
  }
''','''  for (Agent* a : children()) {
    if (a->lifetime() == -1 || context()->time() < a->exit_time()) {
      continue;
    }
    Facility* fac = dynamic_cast<Facility*>(a);
    if (fac != NULL && !fac->CheckDecommissionCondition()) {
      continue;
    }
    CLOG(LEV_INFO3) << a->prototype()
                    << " has reached the end of its lifetime";
    context()->SchedDecom(a);
  }
'''),(I,'''  if (parent() != NULL) {
    return Agent::str() + " in region" + parent()->prototype();
  } else {
    return Agent::str() + " with no region.";
  }
''','''  std::string s = Agent::str();
  s += parent() == NULL ? " with no region." : " in region" + parent()->prototype();
  return s;
'''))
v('inst2',(I,'''    if (a->lifetime() != -1 && context()->time() >= a->exit_time()) {
      Facility* fac = dynamic_cast<Facility*>(a);
      if (fac == NULL || fac->CheckDecommissionCondition()) {
''','''    bool due = a->lifetime() != -1 && context()->time() >= a->exit_time();
    if (due) {
      Facility* fac = dynamic_cast<Facility*>(a);
      bool ready = true;
      if (fac != NULL) {
        ready = fac->CheckDecommissionCondition();
      }
      if (ready) {
'''))
v('fac1',(F,'''  if (!CheckDecommissionCondition()) {
    throw Error("Cannot decommission " + prototype());
  }

  context()->UnregisterTrader(dynamic_cast<Trader*>(this));
  context()->UnregisterTimeListener(this);
  Agent::Decommission();
''','''  if (CheckDecommissionCondition()) {
    Context* ctx = context();
    ctx->UnregisterTimeListener(this);
    ctx->UnregisterTrader(dynamic_cast<Trader*>(this));
    Agent::Decommission();
  } else {
    throw Error("Cannot decommission " + prototype());
  }
'''),(F,'''  context()->RegisterTrader(dynamic_cast<Trader*>(this));
  context()->RegisterTimeListener(this);
''','''  context()->RegisterTimeListener(this);
  context()->RegisterTrader(static_cast<Trader*>(this));
'''))
v('crc1',(C,'''  for (int i = 0; i < qr.rows.size(); ++i) {
    std::string commod = qr.GetVal<std::string>("commod", i);
    int id = qr.GetVal<int>("res_id", i);
    rsrc_commod_map_[id] = commod;
  }
''','''  const int nrows = qr.rows.size();
  for (int i = 0; i < nrows; ++i) {
    rsrc_commod_map_[qr.GetVal<int>("res_id", i)] = qr.GetVal<std::string>("commod", i);
  }
'''),(C,'''  std::set<std::string>::iterator it2;
  for (it2 = in_commods_.begin(); it2 != in_commods_.end(); ++it2) {
    std::string c = *it2;
''','''  for (const std::string& c : in_commods_) {
'''),(C,'''  in_commods_.insert(in_commod);
  out_commods_.insert(out_commod);
  out_commod_map_[in_commod] = out_commod;
  in_recipes_[in_commod] = in_recipe;
  out_recipes_[in_commod]  = out_recipe;
''','''  in_recipes_[in_commod] = in_recipe;
  out_recipes_[in_commod]  = out_recipe;
  out_commod_map_[in_commod] = out_commod;
  out_commods_.insert(out_commod);
  in_commods_.insert(in_commod);
'''))
v('sd1',(SD,'''  double value = 0.0;
  std::set<CommodityProducerManager*>::iterator it;
  for (it = managers_.begin(); it != managers_.end(); it++) {
    value += (*it)->TotalCapacity(commodity);
  }
  return value;
''','''  double total = 0.0;
  for (CommodityProducerManager* m : managers_) {
    total = total + m->TotalCapacity(commodity);
  }
  return total;
'''))
v('sym1',(SY,'''  if (!function_->functions_.empty()) {
    const PiecewiseFunction::PiecewiseFunctionInfo& last =
        function_->functions_.back();
    if (starting_coord <= last.xoffset) {
      throw Error("Cannot append a function before the last registered function");
    }
  }

  double yoffset = 0;
  if (continuous) {
    yoffset = function_->value(starting_coord) - function->value(0);
  }
''','''  if (!function_->functions_.empty() &&
      function_->functions_.back().xoffset >= starting_coord) {
    throw Error("Cannot append a function before the last registered function");
  }

  const double yoffset =
      continuous ? function_->value(starting_coord) - function->value(0) : 0;
'''))
v('sym2',(SY,'''  switch (enum_names_.at(type)) {
    case LIN: {
      LinFunctionFactory lff;
      return lff.GetFunctionPtr(params);
    }
    break;
    case EXP: {
      ExpFunctionFactory eff;
      return eff.GetFunctionPtr(params);
    }
    break;
    default:
      throw Error("Function type " + type + " not yet supported.");
      break;
  }
''','''  FunctionType t = enum_names_.at(type);
  if (t == LIN) {
    LinFunctionFactory lff;
    return lff.GetFunctionPtr(params);
  } else if (t == EXP) {
    ExpFunctionFactory eff;
    return eff.GetFunctionPtr(params);
  }
  throw Error("Function type " + type + " not yet supported.");
'''))
v('reg1',(R,'''  for (std::set<Agent*>::const_iterator inst = children().begin();
       inst != children().end();
       inst++) {
    s += (*inst)->prototype() + ", ";
  }
''','''  for (Agent* inst : children()) {
    s += inst->prototype();
    s += ", ";
  }
'''))
