T='src/timer.cc'; TH='src/timer.h'; A='src/agent.cc'; C='src/context.cc'
V=[]
def v(name,*e): V.append((name,None,list(e)))
v('timer1',
 (T,'''  while (time_ < si_.duration) {
    CLOG''','''  for (;;) {
    if (time_ >= si_.duration) {
      break;
    }
    CLOG'''),
 (T,'''  std::vector<std::pair<std::string, Agent*> > build_list = build_queue_[time_];
  for (int i = 0; i < build_list.size(); ++i) {
    Agent* m = ctx_->CreateAgent<Agent>(build_list[i].first);
    Agent* parent = build_list[i].second;
    CLOG(LEV_INFO3) << "Building a " << build_list[i].first
                    << " from parent " << build_list[i].second;
''','''  std::vector<std::pair<std::string, Agent*> > build_list;
  std::map<int, std::vector<std::pair<std::string, Agent*> > >::iterator q =
      build_queue_.find(time_);
  if (q != build_queue_.end()) {
    build_list = q->second;
  }
  for (const auto& entry : build_list) {
    Agent* m = ctx_->CreateAgent<Agent>(entry.first);
    Agent* parent = entry.second;
'''),
 (T,'''  for (size_t i = 0; i < cpp_tickers_.size(); ++i) {
    cpp_tickers_[i]->Tick();
  }''','''  for (size_t i = 0, n = cpp_tickers_.size(); i < n; ++i) {
    TimeListener* tl = cpp_tickers_[i];
    tl->Tick();
  }'''),
 (T,'''  for (std::map<int, TimeListener*>::iterator agent = tickers_.begin();
       agent != tickers_.end();
       agent++) {
    agent->second->Decision();
  }''','''  for (auto& kv : tickers_) {
    kv.second->Decision();
  }'''),
 (T,'''    if (m->parent() != NULL) {
      m->parent()->DecomNotify(m);
    }
    m->Decommission();''','''    Agent* parent = m->parent();
    if (parent) {
      parent->DecomNotify(m);
    }
    m->Decommission();'''),
 (T,'''  tickers_[agent->id()] = agent;
  if (agent->IsShim()) {
    py_tickers_.push_back(agent);
  } else {
    cpp_tickers_.push_back(agent);
  }''','''  tickers_[agent->id()] = agent;
  std::vector<TimeListener*>& list = agent->IsShim() ? py_tickers_ : cpp_tickers_;
  list.push_back(agent);'''),
)
v('timer2',
 (T,'''  while (time_ < si_.duration) {
    CLOG''','''  bool stop = false;
  while (!stop && time_ < si_.duration) {
    CLOG'''),
 (T,'''    if (want_kill_) {
      break;
    }
  }

  ctx_->New''','''    stop = want_kill_;
  }

  ctx_->New'''),
 (T,'''  for (int i = 0; i < build_list.size(); ++i) {
    Agent* m = ctx_->CreateAgent<Agent>(build_list[i].first);
    Agent* parent = build_list[i].second;
    CLOG(LEV_INFO3) << "Building a " << build_list[i].first
                    << " from parent " << build_list[i].second;
''','''  std::vector<std::pair<std::string, Agent*> >::iterator it;
  for (it = build_list.begin(); it != build_list.end(); ++it) {
    Agent* m = ctx_->CreateAgent<Agent>(it->first);
    Agent* parent = it->second;
'''),
 (T,'''    if (mats.empty() || ResCast<Material>(mats[0]) == NULL) {
      continue; // skip non-material inventories
    }

    Material::Ptr m = ResCast<Material>(mats[0]->Clone());
    for (int i = 1; i < mats.size(); i++) {
      m->Absorb(ResCast<Material>(mats[i]->Clone()));
    }
    RecordInventory(a, name, m);''','''    if (!mats.empty() && ResCast<Material>(mats[0]) != NULL) {
      Material::Ptr m = ResCast<Material>(mats[0]->Clone());
      for (size_t i = 1; i != mats.size(); ++i) {
        Material::Ptr other = ResCast<Material>(mats[i]->Clone());
        m->Absorb(other);
      }
      RecordInventory(a, name, m);
    }'''),
 (T,'''  std::vector<Agent*> decom_list = decom_queue_[time_];
  for (int i = 0; i < decom_list.size(); ++i) {
    Agent* m = decom_list[i];
''','''  const std::vector<Agent*> decom_list = decom_queue_[time_];
  for (Agent* m : decom_list) {
'''),
 (T,'''  if (t <= time_) {
    throw ValueError("Cannot schedule build for t < [current-time]");
  }
  build_queue_[t].push_back(std::make_pair(proto_name, parent));''','''  if (!(t > time_)) {
    throw ValueError("Cannot schedule build for t < [current-time]");
  }
  build_queue_[t].emplace_back(proto_name, parent);'''),
 (T,'''  std::map<int, std::vector<Agent*> >::iterator it;
  bool done = false;
  for (it = decom_queue_.begin(); it != decom_queue_.end(); ++it) {
    int t = it->first;
    std::vector<Agent*> ags = it->second;
    for (int i = 0; i < ags.size(); i++) {
      if (ags[i] == m) {
        CLOG(LEV_WARN) << "scheduled over previous decommissioning of " << m->id();
        decom_queue_[t].erase(decom_queue_[t].begin()+i);
        done = true;
        break;
      }
    }
    if (done) {
      break;
    }
  }
''','''  std::map<int, std::vector<Agent*> >::iterator it;
  for (it = decom_queue_.begin(); it != decom_queue_.end(); ++it) {
    std::vector<Agent*>& ags = it->second;
    std::vector<Agent*>::iterator pos = std::find(ags.begin(), ags.end(), m);
    if (pos != ags.end()) {
      ags.erase(pos);
      break;
    }
  }
'''),
 (T,'''  want_kill_ = false;
  ctx_ = ctx;
  time_ = 0;
  si_ = si;

  if (si.branch_time > -1) {
    time_ = si.branch_time;
  }''','''  si_ = si;
  ctx_ = ctx;
  want_kill_ = false;
  time_ = si.branch_time > -1 ? si.branch_time : 0;'''),
 (T,'''  tickers_.erase(tl->id());
  if (tl->IsShim()) {
    py_tickers_.erase(
      std::remove(py_tickers_.begin(), py_tickers_.end(), tl),
      py_tickers_.end()
    );
  } else {
    cpp_tickers_.erase(
      std::remove(cpp_tickers_.begin(), cpp_tickers_.end(), tl),
      cpp_tickers_.end()
    );
  }''','''  tickers_.erase(tl->id());
  std::vector<TimeListener*>& v = tl->IsShim() ? py_tickers_ : cpp_tickers_;
  v.erase(std::remove(v.begin(), v.end(), tl), v.end());'''),
)
v('timer3-helpers',
 (T,'''void Timer::RunSim() {''','''namespace {
void RecordFinish(Context* ctx, bool killed, int end) {
  ctx->NewDatum("Finish")
      ->AddVal("EarlyTerm", killed)
      ->AddVal("EndTime", end)
      ->Record();
}
bool RemoveFirst(std::vector<Agent*>& v, Agent* m) {
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] == m) {
      v.erase(v.begin() + i);
      return true;
    }
  }
  return false;
}
void RemoveAll(std::vector<TimeListener*>& v, TimeListener* tl) {
  v.erase(std::remove(v.begin(), v.end(), tl), v.end());
}
}  // namespace

void Timer::RunSim() {'''),
 (T,'''  ctx_->NewDatum("Finish")
      ->AddVal("EarlyTerm", want_kill_)
      ->AddVal("EndTime", time_-1)
      ->Record();

  Sim''','''  RecordFinish(ctx_, want_kill_, time_ - 1);

  Sim'''),
 (T,'''  std::map<int, std::vector<Agent*> >::iterator it;
  bool done = false;
  for (it = decom_queue_.begin(); it != decom_queue_.end(); ++it) {
    int t = it->first;
    std::vector<Agent*> ags = it->second;
    for (int i = 0; i < ags.size(); i++) {
      if (ags[i] == m) {
        CLOG(LEV_WARN) << "scheduled over previous decommissioning of " << m->id();
        decom_queue_[t].erase(decom_queue_[t].begin()+i);
        done = true;
        break;
      }
    }
    if (done) {
      break;
    }
  }
''','''  for (auto& q : decom_queue_) {
    if (RemoveFirst(q.second, m)) {
      break;
    }
  }
'''),
 (T,'''    py_tickers_.erase(
      std::remove(py_tickers_.begin(), py_tickers_.end(), tl),
      py_tickers_.end()
    );
  } else {
    cpp_tickers_.erase(
      std::remove(cpp_tickers_.begin(), cpp_tickers_.end(), tl),
      cpp_tickers_.end()
    );
  }''','''    RemoveAll(py_tickers_, tl);
  } else {
    RemoveAll(cpp_tickers_, tl);
  }'''),
)
v('agent1',
 (A,'''    it = find(parent_->children_.begin(), parent_->children_.end(), this);
    if (it != parent_->children_.end()) {
      parent_->children_.erase(it);
    }''','''    parent_->children_.erase(this);'''),
 (A,'''  for (it = children_.begin(); it != children_.end(); ++it) {
    Agent* child = *it;
    child->parent_ = NULL;
    child->parent_id_ = -1;
  }''','''  for (Agent* child : children_) {
    child->parent_id_ = -1;
    child->parent_ = nullptr;
  }'''),
 (A,'''  try{
    lifetime(n_timesteps);
  }
  catch (ValueError e){
    if(enter_time_+n_timesteps <= context()->time()){
      lifetime_ = context()->time() - enter_time_ + 1;
    }
    else{
      lifetime_ = n_timesteps;    
    }
  }''','''  if (enter_time_ != -1 && enter_time_ + n_timesteps <= context()->time()) {
    lifetime_ = context()->time() - enter_time_ + 1;
  } else {
    lifetime_ = n_timesteps;
  }'''),
 (A,'''  other = other->parent();
  while (other != NULL) {
    if (this == other)
      return true;
    other = other->parent();
  }
  return false;''','''  for (Agent* p = other->parent(); p != NULL; p = p->parent()) {
    if (p == this) {
      return true;
    }
  }
  return false;'''),
 (A,'''  const std::set<Agent*>& children = other->children();
  std::set<Agent*>::const_iterator it = children.begin();
  for (; it != children.end(); ++it) {
    if (this == *(it) || this->DecendentOf(*(it)))
      return true;
  }
  return false;''','''  for (Agent* child : other->children()) {
    if (child == this) {
      return true;
    }
    if (DecendentOf(child)) {
      return true;
    }
  }
  return false;'''),
 (A,'''  return (this == other) || AncestorOf(other) || DecendentOf(other);''','''  if (this == other) {
    return true;
  }
  if (AncestorOf(other)) {
    return true;
  }
  return DecendentOf(other);'''),
 (A,'''  if (parent != NULL) {
    parent_ = parent;
    parent_id_ = parent->id();
    parent->children_.insert(this);
  }''','''  if (parent == NULL) {
    return;
  }
  parent->children_.insert(this);
  parent_id_ = parent->id();
  parent_ = parent;'''),
 (A,'''  ctx_->NewDatum("AgentExit")
      ->AddVal("AgentId", id())
      ->AddVal("ExitTime", ctx_->time())
      ->Record();
  ctx_->UnregisterAgent(this);''','''  Datum* d = ctx_->NewDatum("AgentExit");
  d->AddVal("AgentId", id_);
  d->AddVal("ExitTime", ctx_->time());
  d->Record();
  ctx_->UnregisterAgent(this);'''),
 (A,'''  prototype_ = m->prototype_;
  kind_ = m->kind_;
  spec_ = m->spec_;
  lifetime_ = m->lifetime_;
  ctx_ = m->ctx_;''','''  ctx_ = m->ctx_;
  lifetime_ = m->lifetime();
  spec_ = m->spec_;
  kind_ = m->kind();
  prototype_ = m->prototype();'''),
)
v('agent2',
 (A,'''    it = find(parent_->children_.begin(), parent_->children_.end(), this);
    if (it != parent_->children_.end()) {
      parent_->children_.erase(it);
    }''','''    it = parent_->children_.find(this);
    if (it != parent_->children_.end()) {
      parent_->children_.erase(it);
    }'''),
 (A,'''  std::string proto = qe->GetString("name");
  int lifetime = OptionalQuery<int>(qe, "lifetime", -1);
  di.NewDatum("Agent")
      ->AddVal("Prototype", proto)
      ->AddVal("Lifetime", lifetime)
      ->Record();''','''  const int lifetime = OptionalQuery<int>(qe, "lifetime", -1);
  Datum* row = di.NewDatum("Agent");
  row->AddVal("Prototype", qe->GetString("name"));
  row->AddVal("Lifetime", lifetime);
  row->Record();'''),
 (A,'''  if (enter_time_ != -1) {
    throw ValueError("cannot set the lifetime of an already-built facility");
  }
  lifetime_ = n_timesteps;''','''  if (enter_time_ == -1) {
    lifetime_ = n_timesteps;
  } else {
    throw ValueError("cannot set the lifetime of an already-built facility");
  }'''),
)
v('ctx1',
 (C,'''  if (solver_ != NULL) {
    delete solver_;
  }
  if (rng_ != NULL) {
    delete rng_;
  }''','''  delete solver_;
  delete rng_;'''),
 (C,'''  std::vector<Agent*> to_del;
  std::set<Agent*>::iterator it;
  for (it = agent_list_.begin(); it != agent_list_.end(); ++it) {
    if ((*it)->parent() == NULL) {
      to_del.push_back(*it);
    }
  }
  for (int i = 0; i < to_del.size(); ++i) {
    DelAgent(to_del[i]);
  }''','''  std::vector<Agent*> to_del;
  std::copy_if(agent_list_.begin(), agent_list_.end(), std::back_inserter(to_del),
               [](Agent* a) { return a->parent() == NULL; });
  for (Agent* a : to_del) {
    DelAgent(a);
  }'''),
 (C,'''  int n = agent_list_.erase(m);
  if (n == 1) {
    PyDelAgent(m->id());
    delete m;
    m = NULL;
  }''','''  if (agent_list_.erase(m) == 0) {
    return;
  }
  PyDelAgent(m->id());
  delete m;'''),
 (C,'''    if (t == -1) {
      t = time() + 1;
    }
    int pid = (parent != NULL) ? parent->id() : -1;
    ti_->SchedBuild(parent, proto_name, t);
    NewDatum("BuildSchedule")
        ->AddVal("ParentId", pid)
        ->AddVal("Prototype", proto_name)
        ->AddVal("SchedTime", time())
        ->AddVal("BuildTime", t)
        ->Record();''','''    const int now = time();
    int build_time = t;
    if (build_time == -1) {
      build_time = now + 1;
    }
    int pid = -1;
    if (parent != NULL) {
      pid = parent->id();
    }
    ti_->SchedBuild(parent, proto_name, build_time);
    NewDatum("BuildSchedule")
        ->AddVal("ParentId", pid)
        ->AddVal("Prototype", proto_name)
        ->AddVal("SchedTime", now)
        ->AddVal("BuildTime", build_time)
        ->Record();'''),
 (C,'''  if (!overwrite && protos_.find(name) != protos_.end()) {
    throw''','''  const bool known = protos_.count(name) > 0;
  if (known && !overwrite) {
    throw'''),
 (C,'''  std::string spec = p->spec();
  if (rec_ver_.count(spec) == 0) {
    rec_ver_.insert(spec);
    NewDatum''','''  std::string spec = p->spec();
  if (rec_ver_.insert(spec).second) {
    NewDatum'''),
 (C,'''  if (recipes_.count(name) == 0) {
    throw KeyError("Invalid recipe name " + name);
  }
  return recipes_[name];''','''  std::map<std::string, Composition::Ptr>::iterator it = recipes_.find(name);
  if (it == recipes_.end()) {
    throw KeyError("Invalid recipe name " + name);
  }
  return it->second;'''),
 (C,'''  if (packages_.count(name) == 0) {
    Package::Ptr pkg = Package::Create(name, fill_min, fill_max, strategy);
    packages_[name] = pkg;
    RecordPackage(pkg);
  } else {
    throw KeyError("Package " + name + " already exists!");
  }''','''  if (packages_.count(name) != 0) {
    throw KeyError("Package " + name + " already exists!");
  }
  Package::Ptr pkg = Package::Create(name, fill_min, fill_max, strategy);
  RecordPackage(pkg);
  packages_[name] = pkg;'''),
 (C,'''  if (packages_.size() == 0 ) {
    throw KeyError("No user-created packages exist");
  }
  if (packages_.count(name) == 0) {
    throw KeyError("Invalid package name " + name);
  }
  return packages_[name];''','''  if (packages_.empty()) {
    throw KeyError("No user-created packages exist");
  }
  auto it = packages_.find(name);
  if (it != packages_.end()) {
    return it->second;
  }
  throw KeyError("Invalid package name " + name);'''),
)
v('ctx2',
 (C,'''  if (transport_units_.size() == 0 ) {
    throw KeyError("No user-created transport units exist");
  }
  if (transport_units_.count(name) == 0) {
    throw KeyError("Invalid transport unit name " + name);
  }
  return transport_units_[name];''','''  try {
    return transport_units_.at(name);
  } catch (const std::out_of_range&) {
    throw KeyError("Invalid transport unit name " + name);
  }'''),
 (C,'''  si_ = si;
  ti_->Initialize(this, si);
  rng_->Initialize(si);
''','''  rng_->Initialize(si);
  ti_->Initialize(this, si);
  si_ = si;
'''),
 (C,'''  if (rec_ver_.count(spec) == 0) {
    rec_ver_.insert(spec);
    NewDatum("AgentVersions")
      ->AddVal("Spec", spec)
      ->AddVal("Version", p->version())
      ->Record();
  }''','''  if (rec_ver_.find(spec) != rec_ver_.end()) {
    return;
  }
  NewDatum("AgentVersions")
    ->AddVal("Spec", spec)
    ->AddVal("Version", p->version())
    ->Record();
  rec_ver_.insert(spec);'''),
 (C,'''void Context::SchedDecom(Agent* m, int t) {
  #pragma omp critical
  {
    if (t == -1) {
      t = time();
    }
    ti_->SchedDecom(m, t);
    NewDatum("DecomSchedule")
        ->AddVal("AgentId", m->id())
        ->AddVal("SchedTime", time())
        ->AddVal("DecomTime", t)
        ->Record();
  }''','''static void RecordDecom(Context* ctx, int id, int now, int when) {
  ctx->NewDatum("DecomSchedule")
      ->AddVal("AgentId", id)
      ->AddVal("SchedTime", now)
      ->AddVal("DecomTime", when)
      ->Record();
}

void Context::SchedDecom(Agent* m, int t) {
  #pragma omp critical
  {
    const int when = (t == -1) ? time() : t;
    ti_->SchedDecom(m, when);
    RecordDecom(this, m->id(), time(), when);
  }'''),
)
