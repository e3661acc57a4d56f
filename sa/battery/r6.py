P='src/package.cc'; X='src/xml_file_loader.cc'; D='src/decayer.cc'; PH='src/package.h'
V=[]
def v(n,*e): V.append((n,None,list(e)))
v('pk1',(P,'''  if (strategy_ == "uniform") {
    dist_ = UniformDoubleDist::Ptr (new UniformDoubleDist(fill_min_, fill_max_));
  } else if (strategy_ == "normal") {
    dist_ = NormalDoubleDist::Ptr (new NormalDoubleDist(
      (fill_min_ + fill_max_) / 2,
      (fill_max_ - fill_min_) / 6,
      fill_min_,
      fill_max_));
  }''','''  if (strategy_ == "normal") {
    const double mean = (fill_min_ + fill_max_) / 2;
    const double sd = (fill_max_ - fill_min_) / 6;
    dist_ = NormalDoubleDist::Ptr(
        new NormalDoubleDist(mean, sd, fill_min_, fill_max_));
    return;
  }
  if (strategy_ == "uniform") {
    dist_.reset(new UniformDoubleDist(fill_min_, fill_max_));
  }'''))
v('pk2',(P,'''  double fill_mass;
  int num_at_fill_mass;
  
  if (strategy_ == "first") {
    fill_mass = fill_max_;
  } else if (strategy_ == "equal") {
    int num_min_fill = std::floor(qty / fill_min_);
    int num_max_fill = std::ceil(qty / fill_max_);
    if (num_min_fill >= num_max_fill) {
      // all material can fit in package(s)
      fill_mass = qty / num_max_fill;
    } else {
      // some material will remain unpackaged, fill up as many max packages as possible
      fill_mass = fill_max_;
    }
  }

  if (strategy_ == "first" || strategy_ == "equal") {
    fill_mass = std::min(qty, fill_mass);
    num_at_fill_mass = static_cast<int>(std::floor(qty / fill_mass));
    ExceedsSplitLimits(num_at_fill_mass);
    packages.assign(num_at_fill_mass, fill_mass);

    qty -= num_at_fill_mass * fill_mass;
  }

  if (strategy_ == "uniform" || strategy_ == "normal") {''','''  if (strategy_ == "first" || strategy_ == "equal") {
    double fill_mass = fill_max_;
    if (strategy_ == "equal") {
      int num_min_fill = std::floor(qty / fill_min_);
      int num_max_fill = std::ceil(qty / fill_max_);
      if (num_min_fill >= num_max_fill) {
        fill_mass = qty / num_max_fill;
      }
    }
    if (qty < fill_mass) fill_mass = qty;
    const int n = static_cast<int>(std::floor(qty / fill_mass));
    ExceedsSplitLimits(n);
    packages.assign(n, fill_mass);
    qty -= n * fill_mass;
  } else if (strategy_ == "uniform" || strategy_ == "normal") {'''),(P,'''      fill_mass = dist_->sample();
      packages.push_back(fill_mass);
      qty -= fill_mass;''','''      const double drawn = dist_->sample();
      packages.push_back(drawn);
      qty -= drawn;'''))
v('pk3',(P,'''  if ((qty - fill_min_) < -eps_rsrc()) {
    // less than one pkg of material available
    return packages;
  }
''','''  const bool too_little = (qty - fill_min_) < -eps_rsrc();
  if (too_little) return packages;
'''),(P,'''  if (qty >= std::max(eps_rsrc(),fill_min_) ) {
    // leftover material is enough to fill one more partial package. 
    packages.push_back(qty);
  }
    
  Package::ExceedsSplitLimits(packages.size());
''','''  const double least = std::max(eps_rsrc(), fill_min_);
  if (!(qty < least)) packages.push_back(qty);
  ExceedsSplitLimits(packages.size());
'''))
v('pk4',(P,'''    if (name == unpackaged_name_) {
      if (unpackaged_) {
        throw ValueError("can't create a new package with name 'unpackaged'");
      }
  }
    if (!IsValidStrategy(strategy_)) {''','''    if (name == unpackaged_name_ && unpackaged_) {
      throw ValueError("can't create a new package with name 'unpackaged'");
    }
    if (!IsValidStrategy(strategy)) {'''),(P,'''  if (fill_min < 0 || fill_max < 0) {
    throw ValueError("fill_min and fill_max must be non-negative");
  }
  else if (fill_min > fill_max) {
    throw ValueError("fill_min must be less than or equal to fill_max");
  }
  Ptr t(new TransportUnit(name, fill_min, fill_max, strategy));
  return t;''','''  const bool negative = fill_min < 0 || fill_max < 0;
  if (negative) throw ValueError("fill_min and fill_max must be non-negative");
  if (fill_max < fill_min) {
    throw ValueError("fill_min must be less than or equal to fill_max");
  }
  return Ptr(new TransportUnit(name, fill_min, fill_max, strategy));'''))
v('tu1',(P,'''  if (qty < fill_min_ || qty < 1 || fill_max_ < 1) {
    // less than one TransportUnit of material available
    return 0;
  }

  if (strategy_ == "first") {
    return fill_max_;
  } else if (strategy_ == "equal" || strategy_ == "hybrid") {''','''  if (qty < 1 || fill_max_ < 1 || qty < fill_min_) return 0;

  const bool spread = strategy_ == "equal" || strategy_ == "hybrid";
  if (strategy_ != "first" && spread) {'''),(P,'''    int num_at_max_fill = qty / fill_max_ + (qty % fill_max_ != 0 ? 1 : 0);
''','''    int num_at_max_fill = qty / fill_max_;
    if (qty % fill_max_ != 0) ++num_at_max_fill;
'''),(P,'''      double dbl_fill_mass = (double)qty / (double)num_at_max_fill;
      return std::floor(dbl_fill_mass);''','''      return std::floor(static_cast<double>(qty) / num_at_max_fill);'''))
v('tu2',(P,'''  int TU_fill;
  int shippable = 0;

  if (pkgs == 0 || pkgs < fill_min_) {
    return 0;

  } else if (name_ == unrestricted_name_) {
    return pkgs;

  } else if (strategy_ == "first" || strategy_ == "equal") {
    TU_fill = GetTransportUnitFill(pkgs);
    if (TU_fill == 0) {
      return 0;
    }
    shippable = std::min(pkgs, (pkgs / TU_fill) * TU_fill);
    return shippable;

  } else if (strategy_ == "hybrid") {
    while ((pkgs > 0) && (pkgs >= fill_min_)) {
      TU_fill = GetTransportUnitFill(pkgs);
      if (TU_fill == 0) {
        break;
      }
      shippable += TU_fill;
      pkgs -= TU_fill;
    }
    return shippable;
  }
  return 0;''','''  if (pkgs == 0 || pkgs < fill_min_) return 0;
  if (name_ == unrestricted_name_) return pkgs;
  if (strategy_ == "first" || strategy_ == "equal") {
    int fill = GetTransportUnitFill(pkgs);
    return fill == 0 ? 0 : std::min(pkgs, (pkgs / fill) * fill);
  }
  int shippable = 0;
  if (strategy_ == "hybrid") {
    for (; pkgs > 0 && pkgs >= fill_min_;) {
      int fill = GetTransportUnitFill(pkgs);
      if (fill == 0) break;
      pkgs -= fill;
      shippable += fill;
    }
  }
  return shippable;'''))
v('de1',(D,'''  int nuc;
  int col;
  long double atom_count;
  bool needs_build = false;

  std::map<int, double>::const_iterator comp_iter = comp.begin();
  for (comp_iter = comp.begin(); comp_iter != comp.end(); ++comp_iter) {
    nuc = comp_iter->first;
    atom_count = comp_iter->second;
    if (!IsNucTracked(nuc)) {
      needs_build = true;
      AddNucToMaps(nuc);
    }
  }
''','''  bool needs_build = false;
  for (const auto& entry : comp) {
    if (IsNucTracked(entry.first)) continue;
    AddNucToMaps(entry.first);
    needs_build = true;
  }
'''),(D,'''  for (comp_iter = comp.begin(); comp_iter != comp.end(); ++comp_iter) {
    nuc = comp_iter->first;
    atom_count = comp_iter->second;
    col = parent_[nuc].first;
    pre_vect_(col, 1) = atom_count;
  }''','''  for (const auto& entry : comp) {
    pre_vect_(parent_[entry.first].first, 1) = entry.second;
  }'''))
v('xl1',(X,'''  for (int i = 0; i < n; ++i) {
    AgentSpec spec(xqe.SubTree(p, i));
    if (unique.count(spec.str()) == 0) {
      specs.push_back(spec);
      unique.insert(spec.str());
    }
  }

  if (specs.size() == 0) {''','''  for (int i = 0; i < n; ++i) {
    AgentSpec spec(xqe.SubTree(p, i));
    if (unique.insert(spec.str()).second) {
      specs.push_back(spec);
    }
  }

  if (specs.empty()) {'''))
v('xl2',(X,'''  bool atom_basis;
  std::string basis_str = qe->GetString("basis");
  if (basis_str == "atom") {
    atom_basis = true;
  } else if (basis_str == "mass") {
    atom_basis = false;
  } else {
    throw IOError(basis_str + " basis is not 'mass' or 'atom'.");
  }

  double value;
  int key;
''','''  const std::string basis_str = qe->GetString("basis");
  const bool atom_basis = basis_str == "atom";
  if (!atom_basis && basis_str != "mass") {
    throw IOError(basis_str + " basis is not 'mass' or 'atom'.");
  }

'''),(X,'''    key = pyne::nucname::id(nuclide->GetString("id"));
    value = strtod(nuclide->GetString("comp").c_str(), NULL);
    v[key] = value;
''','''    const int key = pyne::nucname::id(nuclide->GetString("id"));
    v[key] = strtod(nuclide->GetString("comp").c_str(), NULL);
'''),(X,'''  if (atom_basis) {
    return Composition::CreateFromAtom(v);
  } else {
    return Composition::CreateFromMass(v);
  }''','''  return atom_basis ? Composition::CreateFromAtom(v)
                    : Composition::CreateFromMass(v);'''))
v('xl3',(X,'''  InfileTree* qe;
  std::string query = "/*/commodity";

  std::map<std::string, double> commod_priority;
  std::string name;
  double priority;
  int num_commods = xqe.NMatches(query);
  for (int i = 0; i < num_commods; i++) {
    qe = xqe.SubTree(query, i);
    name = qe->GetString("name");
    priority = OptionalQuery<double>(qe, "solution_priority", -1);
    commod_priority[name] = priority;
  }

  ProcessCommodities(&commod_priority);
  std::map<std::string, double>::iterator it;
  for (it = commod_priority.begin(); it != commod_priority.end(); ++it) {
    ctx_->NewDatum("CommodPriority")
        ->AddVal("Commodity", it->first)
        ->AddVal("SolutionPriority", it->second)
        ->Record();
  }
''','''  std::string query = "/*/commodity";

  std::map<std::string, double> commod_priority;
  int num_commods = xqe.NMatches(query);
  for (int i = 0; i < num_commods; i++) {
    InfileTree* commod = xqe.SubTree(query, i);
    std::string name = commod->GetString("name");
    commod_priority[name] =
        OptionalQuery<double>(commod, "solution_priority", -1);
  }

  ProcessCommodities(&commod_priority);
  for (const auto& cp : commod_priority) {
    ctx_->NewDatum("CommodPriority")
        ->AddVal("Commodity", cp.first)
        ->AddVal("SolutionPriority", cp.second)
        ->Record();
  }
'''),(X,'''    qe = xqe.SubTree("/*/control/solver");
    if''','''    InfileTree* qe = xqe.SubTree("/*/control/solver");
    if'''))
v('xl4',(X,'''  if (solver_name == greedy) {
    query = string("/*/control/solver/config/greedy/preconditioner");
    string precon_name = cyclus::OptionalQuery<string>(&xqe, query, greedy);
''','''  if (solver_name != greedy && solver_name != coinor) {
    throw ValueError("unknown solver name: " + solver_name);
  }
  if (solver_name == greedy) {
    string precon_name = cyclus::OptionalQuery<string>(
        &xqe, "/*/control/solver/config/greedy/preconditioner", greedy);
'''),(X,'''  } else if (solver_name == coinor) {
    query = string("/*/control/solver/config/coin-or/timeout");
    double timeout = cyclus::OptionalQuery<double>(&xqe, query, -1);
    query = string("/*/control/solver/config/coin-or/verbose");
    bool verbose = cyclus::OptionalQuery<bool>(&xqe, query, false);
    query = string("/*/control/solver/config/coin-or/mps");
    bool mps = cyclus::OptionalQuery<bool>(&xqe, query, false);
''','''  } else {
    const string base = "/*/control/solver/config/coin-or/";
    double timeout = cyclus::OptionalQuery<double>(&xqe, base + "timeout", -1);
    bool verbose = cyclus::OptionalQuery<bool>(&xqe, base + "verbose", false);
    bool mps = cyclus::OptionalQuery<bool>(&xqe, base + "mps", false);
'''),(X,'''      ->AddVal("Mps", mps)
      ->Record();
  } else {
    throw ValueError("unknown solver name: " + solver_name);
  }''','''      ->AddVal("Mps", mps)
      ->Record();
  }'''))
v('xl5',(X,'''  if (max < 1) {
    max = 0;  // in case no priorities are specified
  }

  std::map<std::string, double>::iterator it;
  for (it = commod_priority->begin();
       it != commod_priority->end();
       ++it) {
    if (it->second < 1) {
      it->second = max + 1;
    }
    CLOG(LEV_INFO1) << "Commodity priority for " << it->first
                    << " is " << it->second;
  }''','''  const double unset = (max < 1 ? 0 : max) + 1;
  for (auto& cp : *commod_priority) {
    if (cp.second < 1) cp.second = unset;
    CLOG(LEV_INFO1) << "Commodity priority for " << cp.first
                    << " is " << cp.second;
  }'''))
v('xl6',(X,'''  std::string query = "/*/recipe";
  int num_recipes = xqe.NMatches(query);
  for (int i = 0; i < num_recipes; i++) {
    InfileTree* qe = xqe.SubTree(query, i);
    std::string name = qe->GetString("name");
    CLOG(LEV_DEBUG3) << "loading recipe: " << name;
    Composition::Ptr comp = ReadRecipe(qe);
    comp->Record(ctx_);
    ctx_->AddRecipe(name, comp);
  }''','''  const std::string path("/*/recipe");
  const int n = xqe.NMatches(path);
  int i = 0;
  while (i < n) {
    InfileTree* tree = xqe.SubTree(path, i++);
    Composition::Ptr comp = ReadRecipe(tree);
    std::string name = tree->GetString("name");
    comp->Record(ctx_);
    ctx_->AddRecipe(name, comp);
  }'''),(X,'''  std::vector<AgentSpec> specs = ParseSpecs(file_, format_);
  for (int i = 0; i < specs.size(); ++i) {
    specs_[specs[i].alias()] = specs[i];
  }''','''  for (const AgentSpec& spec : ParseSpecs(file_, format_)) {
    AgentSpec s = spec;
    specs_[s.alias()] = s;
  }'''))
v('xl7',(X,'''    double fill_min = cyclus::OptionalQuery<double>(qe, "fill_min", eps());
    double fill_max = cyclus::OptionalQuery<double>(qe, "fill_max", std::numeric_limits<double>::max());
    
    std::string strategy = cyclus::OptionalQuery<std::string>(qe, "strategy", "first");

    ctx_->AddPackage(name, fill_min, fill_max, strategy);''','''    const double unlimited = std::numeric_limits<double>::max();
    std::string strategy = OptionalQuery<std::string>(qe, "strategy", "first");
    double fill_max = OptionalQuery<double>(qe, "fill_max", unlimited);
    double fill_min = OptionalQuery<double>(qe, "fill_min", eps());
    ctx_->AddPackage(name, fill_min, fill_max, strategy);'''))
v('xl8',(X,'''  std::map<std::string, std::string> subschemas;

  // force element types to exist so we always replace the config string
  subschemas["region"] = "";
  subschemas["inst"] = "";
  subschemas["facility"] = "";

  for (int i = 0; i < specs.size(); ++i) {
    Agent* m = DynamicModule::Make(&ctx, specs[i]);
    subschemas[m->kind()] += "<element name=\\"" + specs[i].alias() + "\\">\\n";
    subschemas[m->kind()] += m->schema() + "\\n";
    subschemas[m->kind()] += "</element>\\n";
    ctx.DelAgent(m);
  }''','''  std::map<std::string, std::string> subschemas;

  // force element types to exist so we always replace the config string
  subschemas["facility"] = "";
  subschemas["inst"] = "";
  subschemas["region"] = "";

  for (AgentSpec& spec : specs) {
    Agent* m = DynamicModule::Make(&ctx, spec);
    std::string& sub = subschemas[m->kind()];
    sub += "<element name=\\"" + spec.alias() + "\\">\\n";
    sub += m->schema() + "\\n";
    sub += "</element>\\n";
    ctx.DelAgent(m);
  }'''),(X,'''    if (pos != std::string::npos) {
      master.replace(pos, search_str.size(), it->second);
    }''','''    if (pos == std::string::npos) continue;
    master.replace(pos, search_str.length(), it->second);'''))
