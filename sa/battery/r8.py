V=[]
def v(name,*e): V.append((name,None,list(e)))
S='agents/sink.cc'; R='agents/source.cc'; P='agents/predator.cc'; Y='agents/prey.cc'
v('sink1',(S,'''  if (amt > cyclus::eps()) {
    CapacityConstraint<Material> cc(amt);
    port->AddConstraint(cc);

    std::vector<std::string>::const_iterator it;
    for (it = in_commods.begin(); it != in_commods.end(); ++it) {
      port->AddRequest(mat, this, *it);
    }

    ports.insert(port);
  }  // if amt > eps

  return ports;
''','''  if (amt <= cyclus::eps()) {
    return ports;
  }
  for (const std::string& c : in_commods) {
    port->AddRequest(mat, this, c);
  }
  port->AddConstraint(CapacityConstraint<Material>(amt));
  ports.insert(port);
  return ports;
'''),(S,'''  Material::Ptr mat = cyclus::NewBlankMaterial(amt);
  if (!recipe_name.empty()) {
    Composition::Ptr c = context()->GetRecipe(recipe_name);
    mat = Material::CreateUntracked(amt, c);
  }
''','''  Material::Ptr mat;
  if (recipe_name.empty()) {
    mat = cyclus::NewBlankMaterial(amt);
  } else {
    mat = Material::CreateUntracked(amt, context()->GetRecipe(recipe_name));
  }
'''))
v('sink2',(S,'''  std::vector< std::pair<cyclus::Trade<cyclus::Product>,
  cyclus::Product::Ptr> >::const_iterator it;
  for (it = responses.begin(); it != responses.end(); ++it) {
    inventory.Push(it->second);
  }
''','''  for (size_t i = 0; i < responses.size(); ++i) {
    cyclus::Product::Ptr p = responses[i].second;
    inventory.Push(p);
  }
'''),(S,'''      std::string quality = "";  // not clear what this should be..
      Product::Ptr rsrc = Product::CreateUntracked(amt, quality);
      port->AddRequest(rsrc, this, *it);
''','''      port->AddRequest(Product::CreateUntracked(amt, ""), this, *it);
'''))
v('src1',(R,'''  double qty = std::min(target->quantity(), capacity);
  if (recipe_name.empty()) {
    return target;
  } else {
    return Material::CreateUntracked(qty, context()->GetRecipe(recipe_name));
  }
''','''  if (recipe_name.empty()) {
    return target;
  }
  const double want = target->quantity();
  const double qty = want < capacity ? want : capacity;
  return Material::CreateUntracked(qty, context()->GetRecipe(recipe_name));
'''),(R,'''    std::vector<Request<Material>*>& requests = commod_requests[commod];

    std::vector<Request<Material>*>::iterator it;
    for (it = requests.begin(); it != requests.end(); ++it) {
      Request<Material>* req = *it;
      Material::Ptr offer = GetOffer(req->target());
      port->AddBid(req, offer, this);
    }

    CapacityConstraint<Material> cc(capacity);
    port->AddConstraint(cc);
    ports.insert(port);
''','''    CapacityConstraint<Material> cc(capacity);
    port->AddConstraint(cc);
    for (Request<Material>* req : commod_requests[commod]) {
      port->AddBid(req, GetOffer(req->target()), this);
    }
    ports.insert(port);
'''))
v('src2',(R,'''  double current_capacity = capacity;
  std::vector<''','''  std::vector<'''),(R,'''    current_capacity -= qty;
    provided += qty;
    // @TODO we need a policy on negatives..
    Material::Ptr response;
    if (recipe_name.empty()) {
      response = Material::Create(this, qty, it->request->target()->comp());
    } else {
      response = Material::Create(this, qty, context()->GetRecipe(recipe_name));
    }
    responses.push_back(std::make_pair(*it, response));
''','''    provided += qty;
    cyclus::Composition::Ptr comp = recipe_name.empty()
        ? it->request->target()->comp() : context()->GetRecipe(recipe_name);
    Material::Ptr response = Material::Create(this, qty, comp);
    responses.push_back(std::make_pair(*it, response));
'''),(R,'''  if (cyclus::IsNegative(current_capacity)) {''','''  if (cyclus::IsNegative(capacity - provided)) {'''))
v('pred1',(P,'''  bool policy = dead ? birth_and_death : true;
  if (consumed >= full && policy) {
    int nkids = nchildren;
    LOG(cyclus::LEV_INFO3, "Predator") << name() << " is having "
                                       << nkids << " children";
    for (int i = 0; i < nkids; ++i) {
      context()->SchedBuild(NULL, prototype());
    }
    consumed = 0;
  }
''','''  if (dead && !birth_and_death) {
    return;
  }
  if (consumed < full) {
    return;
  }
  consumed = 0;
  for (int i = nchildren; i > 0; --i) {
    context()->SchedBuild(NULL, prototype());
  }
'''),(P,'''  if (age >= lifespan) {
    LOG(cyclus::LEV_INFO3, "Predator") << name() << " is dying of old age";
    dead = 1;
    context()->SchedDecom(this);
  }

  GiveBirth();

  age++;  // getting older
''','''  const bool old = age >= lifespan;
  if (old) {
    context()->SchedDecom(this);
    dead = 1;
  }
  GiveBirth();
  age += 1;
'''))
v('prey1',(Y,'''  bool policy = dead ? birth_and_death : true;
  if (age % birth_freq == 0 && policy) {
    LOG(cyclus::LEV_INFO3, "Prey") << name() << " is having children";
    for (int i = 0; i < nchildren; ++i) {
      context()->SchedBuild(NULL, prototype());
    }
  }
''','''  if (!dead || birth_and_death) {
    if (age % birth_freq != 0) return;
    int left = nchildren;
    while (left > 0) {
      context()->SchedBuild(NULL, prototype());
      --left;
    }
  }
'''))
D='src/dynamic_module.cc'; I='src/discovery.cc'; E='src/env.cc.in'
v('dm1',(D,'''  if (man_ctors_.count(spec.str()) > 0) {  // for testing
    Agent* a = man_ctors_[spec.str()](ctx);
    a->spec(spec.str());
    return a;
  } else if (modules_.count(spec.str()) == 0) {
    DynamicModule* dyn = new DynamicModule(spec);
    modules_[spec.str()] = dyn;
  }

  DynamicModule* dyn = modules_[spec.str()];
  Agent* a;
  if (''','''  const std::string key = spec.str();
  Agent* a;
  if (man_ctors_.count(key) > 0) {  // for testing
    a = man_ctors_[key](ctx);
    a->spec(key);
    return a;
  }
  if (modules_.find(key) == modules_.end()) {
    modules_[key] = new DynamicModule(spec);
  }
  DynamicModule* dyn = modules_[key];
  if ('''),(D,'''  bool rtn = true;
  try {
    DynamicModule dyn(spec);
  } catch (cyclus::Error& e) {
    rtn = false;
  }
  return rtn;
''','''  try {
    DynamicModule dyn(spec);
    return true;
  } catch (cyclus::Error& e) {
    return false;
  }
'''),(D,'''  std::map<std::string, DynamicModule*>::iterator it;
  for (it = modules_.begin(); it != modules_.end(); it++) {
    it->second->CloseLibrary();
    delete it->second;
  }
''','''  for (auto& m : modules_) {
    m.second->CloseLibrary();
    delete m.second;
  }
'''),(D,'''  bool rtn = false;
  if (DynamicModule::Exists(spec) && boost::starts_with(modules_[spec.str()]->path(), "<py>")) {
    rtn = true;
  }
  return rtn;
''','''  return DynamicModule::Exists(spec) && boost::starts_with(modules_[spec.str()]->path(), "<py>");
'''))
v('dm2',(D,'''      agent_(agent),
      alias_(alias) {

  if (lib_ == "") {
    lib_ = agent_;
  }
  if (alias_ == "") {
    alias_ = agent_;
  }
''','''      agent_(agent),
      alias_(alias) {
  if (alias_.empty()) alias_ = agent;
  if (lib_.empty()) lib_ = agent;
'''),(D,'''  boost::replace_all(s, "/", "_");
  boost::replace_all(s, "-", "_");
  boost::replace_all(s, ":", "_");
  boost::replace_all(s, ".", "_");
''','''  boost::replace_all(s, ".", "_");
  boost::replace_all(s, ":", "_");
  boost::replace_all(s, "-", "_");
  boost::replace_all(s, "/", "_");
'''))
v('disc1',(I,'''  string spec;
  AgentSpec agentspec;
  for (set<string>::iterator it = archs.begin(); it != archs.end(); ++it) {
    spec = p + ":" + lib + ":" + (*it);
    agentspec = AgentSpec(spec);
    if (DynamicModule::Exists(agentspec)) {
      specs.insert(spec);
    }
  }
''','''  for (const string& arch : archs) {
    const string spec = p + ":" + lib + ":" + arch;
    if (DynamicModule::Exists(AgentSpec(spec))) {
      specs.insert(spec);
    }
  }
'''))
v('env1',(E,'''  char* pVar = getenv(varname.c_str());
  if (pVar == NULL) {
    return "";
  }
  return pVar;
''','''  const char* val = getenv(varname.c_str());
  return val != NULL ? std::string(val) : std::string("");
'''),(E,'''  std::string base;
  int index;

  index = path.rfind("/");
  base = path.substr(0, index);
  return base;
''','''  int slash = path.rfind("/");
  return path.substr(0, slash);
'''))
