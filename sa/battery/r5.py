S='src/sim_init.cc'; SH='src/sim_init.h'; Q='src/sqlite_back.cc'; QH='src/sqlite_back.h'
V=[]
def v(name,*e): V.append((name,None,list(e)))
blk=lambda o,x: '''  ctx->NewDatum("NextIds")
      ->AddVal("Time", ctx->time())
      ->AddVal("Object", std::string("%s"))
      ->AddVal("NextId", %s)
      ->Record();
''' % (o,x)
ids=[("Agent","Agent::next_id_"),("Transaction","ctx->trans_id_"),("Composition","Composition::next_id_"),("ResourceState","Resource::nextstate_id_"),("ResourceObj","Resource::nextobj_id_"),("Product","Product::next_qualid_")]
v('si1',
 *[(S,blk(o,x),'  RecordNextId(ctx, "%s", %s);\n'%(o,x)) for o,x in ids],
 (S,'''void SimInit::Snapshot(Context* ctx) {''','''static void RecordNextId(Context* ctx, const std::string& object, int next_id) {
  ctx->NewDatum("NextIds")
      ->AddVal("Time", ctx->time())
      ->AddVal("Object", object)
      ->AddVal("NextId", next_id)
      ->Record();
}

void SimInit::Snapshot(Context* ctx) {'''),
 (S,'''  std::set<Agent*>::iterator it;
  for (it = mlist.begin(); it != mlist.end(); ++it) {
    Agent* m = *it;
    if (m->enter_time() != -1) {
      SimInit::SnapAgent(m);
    }
  }''','''  for (Agent* m : mlist) {
    if (m->enter_time() == -1) {
      continue;
    }
    SnapAgent(m);
  }'''),
 (S,'''  Inventories::iterator it;
  for (it = invs.begin(); it != invs.end(); ++it) {
    std::string name = it->first;
    std::vector<Resource::Ptr> inv = it->second;
    for (int i = 0; i < inv.size(); ++i) {
      ctx->NewDatum("AgentStateInventories")
          ->AddVal("AgentId", m->id())
          ->AddVal("SimTime", ctx->time())
          ->AddVal("InventoryName", name)
          ->AddVal("ResourceId", inv[i]->state_id())
          ->Record();
    }
  }''','''  for (const auto& entry : invs) {
    for (const Resource::Ptr& r : entry.second) {
      ctx->NewDatum("AgentStateInventories")
          ->AddVal("AgentId", m->id())
          ->AddVal("SimTime", ctx->time())
          ->AddVal("InventoryName", entry.first)
          ->AddVal("ResourceId", r->state_id())
          ->Record();
    }
  }'''))
v('si2',
 (S,'''  int dur = qr.GetVal<int>("Duration");
  int y0 = qr.GetVal<int>("InitialYear");
  int m0 = qr.GetVal<int>("InitialMonth");
  std::string h = qr.GetVal<std::string>("Handle");
  QueryResult dq = b_->Query("DecayMode", NULL);
  std::string d = dq.GetVal<std::string>("Decay");
  si_ = SimInfo(dur, y0, m0, h, d);
''','''  QueryResult decay_qr = b_->Query("DecayMode", NULL);
  si_ = SimInfo(qr.GetVal<int>("Duration"), qr.GetVal<int>("InitialYear"),
                qr.GetVal<int>("InitialMonth"), qr.GetVal<std::string>("Handle"),
                decay_qr.GetVal<std::string>("Decay"));
'''),
 (S,'''  qr = b_->Query("Epsilon", NULL);
  si_.eps = qr.GetVal<double>("GenericEpsilon");
  si_.eps_rsrc = qr.GetVal<double>("ResourceEpsilon");
''','''  QueryResult eps_qr = b_->Query("Epsilon", NULL);
  si_.eps_rsrc = eps_qr.GetVal<double>("ResourceEpsilon");
  si_.eps = eps_qr.GetVal<double>("GenericEpsilon");
'''),
 (S,'''    if (name != Package::unpackaged_name()) {
      ctx_->AddPackage(name, fill_min, fill_max, strategy);
    }
    else {
      ctx_->RecordPackage(Package::unpackaged());
    }''','''    if (name == Package::unpackaged_name()) {
      ctx_->RecordPackage(Package::unpackaged());
      continue;
    }
    ctx_->AddPackage(name, fill_min, fill_max, strategy);'''),
 (S,'''  for (int i = 0; i < qr.rows.size(); ++i) {
    std::string recipe = qr.GetVal<std::string>("Recipe", i);
    int stateid = qr.GetVal<int>("QualId", i);
    Composition::Ptr c = LoadComposition(b_, stateid);
    ctx_->AddRecipe(recipe, c);
  }''','''  const int n = qr.rows.size();
  for (int i = 0; i < n; i++) {
    Composition::Ptr c = LoadComposition(b_, qr.GetVal<int>("QualId", i));
    ctx_->AddRecipe(qr.GetVal<std::string>("Recipe", i), c);
  }'''))
v('si3',
 (S,'''    if (parentid == -1) {  // root agent
      m->Connect(NULL);
      agents_[id] = m;
      ++it;
      unbuilt.erase(id);
      enter_list.push_back(m);
    } else if (agents_.count(parentid) > 0) {  // parent is built
      m->Connect(agents_[parentid]);
      agents_[id] = m;
      ++it;
      unbuilt.erase(id);
      enter_list.push_back(m);
    } else {  // parent not built yet
      ++it;
    }''','''    const bool is_root = parentid == -1;
    ++it;
    if (is_root || agents_.count(parentid) > 0) {
      m->Connect(is_root ? NULL : agents_[parentid]);
      agents_[id] = m;
      unbuilt.erase(id);
      enter_list.push_back(m);
    }'''),
 (S,'''  for (int i = 0; i < enter_list.size(); ++i) {
    enter_list[i]->EnterNotify();
  }''','''  for (Agent* a : enter_list) {
    a->EnterNotify();
  }'''))
v('si4',
 (S,'''    if (obj == "Agent") {
      Agent::next_id_ = qr.GetVal<int>("NextId", i);
    } else if (obj == "Transaction") {
      ctx_->trans_id_ = qr.GetVal<int>("NextId", i);
    } else if (obj == "Composition") {
      Composition::next_id_ = qr.GetVal<int>("NextId", i);
    } else if (obj == "ResourceState") {
      Resource::nextstate_id_ = qr.GetVal<int>("NextId", i);
    } else if (obj == "ResourceObj") {
      Resource::nextobj_id_ = qr.GetVal<int>("NextId", i);
    } else if (obj == "Product") {
      Product::next_qualid_ = qr.GetVal<int>("NextId", i);
    } else {''','''    const int next = qr.GetVal<int>("NextId", i);
    if (obj == "Product") {
      Product::next_qualid_ = next;
    } else if (obj == "Transaction") {
      ctx_->trans_id_ = next;
    } else if (obj == "Agent") {
      Agent::next_id_ = next;
    } else if (obj == "Composition") {
      Composition::next_id_ = next;
    } else if (obj == "ResourceState") {
      Resource::nextstate_id_ = next;
    } else if (obj == "ResourceObj") {
      Resource::nextobj_id_ = next;
    } else {'''),
 (S,'''  std::map<int, Agent*>::iterator it;
  for (it = agents_.begin(); it != agents_.end(); ++it) {
    Agent* m = it->second;
    std::vector<Cond> conds;''','''  for (const auto& kv : agents_) {
    Agent* m = kv.second;
    std::vector<Cond> conds;'''),
 (S,'''    int t = qr.GetVal<int>("BuildTime", i);
    int parentid = qr.GetVal<int>("ParentId", i);
    std::string proto = qr.GetVal<std::string>("Prototype", i);
    ctx_->SchedBuild(agents_[parentid], proto, t);''','''    Agent* parent = agents_[qr.GetVal<int>("ParentId", i)];
    ctx_->SchedBuild(parent, qr.GetVal<std::string>("Prototype", i),
                     qr.GetVal<int>("BuildTime", i));'''),
 (S,'''  if (precon == NULL) {
    solver = new GreedySolver(exclusive);
  } else {
    solver = new GreedySolver(exclusive,
      reinterpret_cast<GreedyPreconditioner*>(precon));
  }
  return solver;''','''  if (precon != NULL) {
    return new GreedySolver(exclusive,
      reinterpret_cast<GreedyPreconditioner*>(precon));
  }
  return new GreedySolver(exclusive);'''))
v('si5',
 (S,'''  Resource::Ptr r;
  if (type == Material::kType) {
    r = LoadMaterial(ctx, b, state_id);
  } else if (type == Product::kType) {
    r = LoadProduct(ctx, b, state_id);
  } else {
    throw IOError("Invalid resource type in output database: " + type);
  }

  r->state_id_ = state_id;
  r->obj_id_ = obj_id;''','''  if (type != Material::kType && type != Product::kType) {
    throw IOError("Invalid resource type in output database: " + type);
  }
  Resource::Ptr r;
  if (type == Material::kType) {
    r = LoadMaterial(ctx, b, state_id);
  } else {
    r = LoadProduct(ctx, b, state_id);
  }

  r->obj_id_ = obj_id;
  r->state_id_ = state_id;'''),
 (S,'''  // get general resource object info
  conds.clear();
  conds.push_back(Cond("ResourceId", "==", state_id));
  qr = b->Query("Resources", &conds);
  double qty = qr.GetVal<double>("Quantity");''','''  // get general resource object info
  qr = b->Query("Resources", &conds);
  double qty = qr.GetVal<double>("Quantity");'''),
 (S,'''    int nucid = qr.GetVal<int>("NucId", i);
    double mass_frac = qr.GetVal<double>("MassFrac", i);
    cm[nucid] = mass_frac;''','''    cm[qr.GetVal<int>("NucId", i)] = qr.GetVal<double>("MassFrac", i);'''),
 (S,'''  c->recorded_ = true;
  c->id_ = stateid;
  return c;''','''  c->id_ = stateid;
  c->recorded_ = true;
  return c;'''))
v('sq1',
 (Q,'''    for (DatumList::iterator it = data.begin(); it != data.end(); ++it) {
      std::string tbl = (*it)->title();
      if (tbl_names_.count(tbl) == 0) {
        CreateTable(*it);
      }
      if (stmts_.count(tbl) == 0) {
        BuildStmt(*it);
      }
      WriteDatum(*it);
    }''','''    for (Datum* d : data) {
      const std::string tbl = d->title();
      if (tbl_names_.find(tbl) == tbl_names_.end()) {
        CreateTable(d);
      }
      if (stmts_.find(tbl) == stmts_.end()) {
        BuildStmt(d);
      }
      WriteDatum(d);
    }'''),
 (Q,'''  for (int i = 0; i < qr.fields.size(); ++i) {
    ColumnInfo info = ColumnInfo(table, qr.fields[i], i, qr.types[i], std::vector<int>());
    schema.push_back(info);
  }''','''  for (int i = 0; i < qr.fields.size(); ++i) {
    schema.push_back(ColumnInfo(table, qr.fields[i], i, qr.types[i], std::vector<int>()));
  }'''),
 (Q,'''  std::stringstream sql;
  sql << "SELECT * FROM " << table;
  if (conds != NULL) {
    sql << " WHERE ";
    for (int i = 0; i < conds->size(); ++i) {
      if (i > 0) {
        sql << " AND ";
      }
      Cond c = (*conds)[i];
      sql << c.field << " " << c.op << " ?";
    }
  }
  sql << ";";

  SqlStatement::Ptr stmt = db_.Prepare(sql.str());
''','''  std::string sql = "SELECT * FROM " + table;
  if (conds != NULL) {
    sql += " WHERE ";
    for (int i = 0; i < conds->size(); ++i) {
      if (i > 0) {
        sql += " AND ";
      }
      const Cond& c = (*conds)[i];
      sql += c.field + " " + c.op + " ?";
    }
  }
  sql += ";";

  SqlStatement::Ptr stmt = db_.Prepare(sql);
'''))
v('sq2',
 (Q,'''  int i = 0;
  QueryResult info;
  for (i = 0; stmt->Step(); ++i) {
    info.fields.push_back(stmt->GetText(0, NULL));
    info.types.push_back((DbTypes)stmt->GetInt(1));
  }
  if (i == 0) {''','''  QueryResult info;
  while (stmt->Step()) {
    info.fields.push_back(stmt->GetText(0, NULL));
    info.types.push_back(static_cast<DbTypes>(stmt->GetInt(1)));
  }
  if (info.fields.empty()) {'''),
 (Q,'''  schema.push_back(Type(vals[0].second));
  std::string insert = "INSERT INTO " + name + " VALUES (?";
  for (int i = 1; i < vals.size(); ++i) {
    schema.push_back(Type(vals[i].second));
    insert += ", ?";
  }
  insert += ");";
''','''  std::string insert = "INSERT INTO " + name + " VALUES (";
  for (int i = 0; i < vals.size(); ++i) {
    schema.push_back(Type(vals[i].second));
    insert += i == 0 ? "?" : ", ?";
  }
  insert += ");";
'''),
 (Q,'''  Datum::Vals vals = d->vals();
  SqlStatement::Ptr stmt = stmts_[d->title()];
  std::vector<DbTypes> schema = schemas_[d->title()];

  for (int i = 0; i < vals.size(); ++i) {
    boost::spirit::hold_any v = vals[i].second;
    Bind(v, schema[i], stmt, i+1);
  }
''','''  const Datum::Vals& vals = d->vals();
  const std::string title = d->title();
  SqlStatement::Ptr stmt = stmts_[title];
  const std::vector<DbTypes>& schema = schemas_[title];

  int index = 1;
  for (const auto& kv : vals) {
    Bind(kv.second, schema[index - 1], stmt, index);
    ++index;
  }
'''))
v('sq3',
 (Q,'''  std::stringstream types;
  types << "INSERT INTO FieldTypes VALUES ('"
        << name << "','" << it->first << "','"
        << Type(it->second) << "');";
  db_.Execute(types.str());

  std::string cmd = "CREATE TABLE " + name + " (";
  cmd += std::string(it->first) + " " + SqlType(it->second);
  ++it;

  while (it != vals.end()) {
    cmd += ", " + std::string(it->first) + " " + SqlType(it->second);
    std::stringstream types;
    types << "INSERT INTO FieldTypes VALUES ('"
          << name << "','" << it->first << "','"
          << Type(it->second) << "');";
    db_.Execute(types.str());
    ++it;
  }
''','''  RecordFieldType(name, it->first, it->second);

  std::string cmd = "CREATE TABLE " + name + " (";
  cmd += std::string(it->first) + " " + SqlType(it->second);
  for (++it; it != vals.end(); ++it) {
    cmd += ", " + std::string(it->first) + " " + SqlType(it->second);
    RecordFieldType(name, it->first, it->second);
  }
'''),
 (Q,'''void SqliteBack::CreateTable(Datum* d) {''','''void SqliteBack::RecordFieldType(const std::string& table, const char* field,
                                 boost::spirit::hold_any val) {
  std::stringstream types;
  types << "INSERT INTO FieldTypes VALUES ('"
        << table << "','" << field << "','"
        << Type(val) << "');";
  db_.Execute(types.str());
}

void SqliteBack::CreateTable(Datum* d) {'''),
 (QH,'''  void CreateTable(Datum* d);''','''  void CreateTable(Datum* d);
  void RecordFieldType(const std::string& table, const char* field,
                       boost::spirit::hold_any val);'''),
 (Q,'''  SqlStatement::Ptr stmt;
  stmt = db_.Prepare(sql);
  while (stmt->Step()) {
    rtn.insert(stmt->GetText(0, NULL));
  }
  rtn.erase("FieldTypes");
  return rtn;''','''  SqlStatement::Ptr stmt = db_.Prepare(sql);
  for (; stmt->Step();) {
    const char* name = stmt->GetText(0, NULL);
    rtn.insert(name);
  }
  rtn.erase("FieldTypes");
  return rtn;'''))
