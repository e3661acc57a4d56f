V=[]
def v(name,*e): V.append((name,None,list(e)))
RV='src/relax_ng_validator.cc'; RM='src/toolkit/res_manip.cc'; XF='src/xml_flat_loader.cc'; SQ='src/sqlite_db.cc'; CC='src/capacity_constraint.h'; CP='cli/cycpp.py'
v('val1',(RV,'''  if (valid_context_) {
    xmlRelaxNGFreeValidCtxt(valid_context_);
    valid_context_ = 0;
  }

  if (schema_) {
    xmlRelaxNGFree(schema_);
    schema_ = 0;
  }
''','''  if (valid_context_ != NULL) {
    xmlRelaxNGValidCtxtPtr old = valid_context_;
    valid_context_ = NULL;
    xmlRelaxNGFreeValidCtxt(old);
  }
  if (schema_ == NULL) {
    return;
  }
  xmlRelaxNGFree(schema_);
  schema_ = NULL;
'''))
v('val2',(RV,'''  if (!doc) {
    throw ValidationError("Document pointer cannot be 0");
  }

  if (!schema_) {
    throw ValidationError("Must have a schema to validate document");
  }
''','''  if (doc == NULL) {
    throw ValidationError("Document pointer cannot be 0");
  } else if (schema_ == NULL) {
    throw ValidationError("Must have a schema to validate document");
  }
'''),(RV,'''  if (res != 0) {
    throw ValidationError("Document failed schema validation");
  }

  return res;''','''  if (res == 0) {
    return false;
  }
  throw ValidationError("Document failed schema validation");'''))
v('sq1',(RM,'''  Product::Ptr p = ps[0];
  for (int i = 1; i < ps.size(); ++i) {
    p->Absorb(ps[i]);
  }''','''  std::vector<Product::Ptr>::iterator it = ps.begin();
  Product::Ptr p = *it;
  for (++it; it != ps.end(); ++it) {
    p->Absorb(*it);
  }'''))
v('sq2',(RM,'''  Material::Ptr m = ms[0];
  for (int i = 1; i < ms.size(); ++i) {
    m->Absorb(ms[i]);
  }
  m->ChangePackage();
  return m;''','''  for (int i = 1; i < ms.size(); ++i) {
    ms.front()->Absorb(ms[i]);
  }
  ms.front()->ChangePackage();
  return ms.front();'''))
v('sq3',(RM,'''  std::vector<Material::Ptr> mats = ::cyclus::ResCast<Material>(rs);
  if (mats[0] != NULL) {
    return Squash(mats);
  }
  std::vector<Product::Ptr> prods = ::cyclus::ResCast<Product>(rs);
  if (prods[0] != NULL) {
    return Squash(prods);
  }

  throw Error("cannot squash resource type " + rs[0]->type());''','''  std::vector<Material::Ptr> mats = ::cyclus::ResCast<Material>(rs);
  if (mats[0]) {
    return Squash(mats);
  } else {
    std::vector<Product::Ptr> prods = ::cyclus::ResCast<Product>(rs);
    if (!prods[0]) {
      throw Error("cannot squash resource type " + rs[0]->type());
    }
    return Squash(prods);
  }'''))
v('rc1',(RM,'''  std::vector<Resource::Ptr> casted;
  for (int i = 0; i < rs.size(); ++i) {
    casted.push_back(boost::dynamic_pointer_cast<Resource>(rs[i]));
  }
  return casted;''','''  return std::vector<Resource::Ptr>(rs.begin(), rs.end());'''))
v('rc2',(RM,'''  std::vector<Resource::Ptr> casted;
  for (int i = 0; i < rs.size(); ++i) {
    casted.push_back(boost::dynamic_pointer_cast<Resource>(rs[i]));
  }
  return casted;''','''  std::vector<Resource::Ptr> casted;
  casted.reserve(rs.size());
  for (const auto& r : rs) {
    casted.push_back(boost::dynamic_pointer_cast<Resource>(r));
  }
  return casted;'''))
v('xf1',(XF,'''    subschemas += "<element name=\\"" + specs[i].alias() + "\\">\\n";
    subschemas += m->schema() + "\\n";
    subschemas += "</element>\\n";
    ctx.DelAgent(m);''','''    std::string alias = specs[i].alias();
    subschemas += "<element name=\\"" + alias + "\\">\\n" + m->schema() +
                  "\\n" + "</element>\\n";
    ctx.DelAgent(m);'''))
v('db1',(SQ,'''  if (isOpen_) {
    if (sqlite3_close(db_) == SQLITE_OK) {
      isOpen_ = false;
    }
  }''','''  if (isOpen_ && sqlite3_close(db_) == SQLITE_OK) {
    isOpen_ = false;
  }'''))
v('db2',(SQ,'''  if (readonly_ && sqlite3_open_v2(path_.c_str(), &db_, SQLITE_OPEN_READONLY,
                                   NULL) == SQLITE_OK) {
    isOpen_ = true;
  } else if (sqlite3_open(path_.c_str(), &db_) == SQLITE_OK) {
    isOpen_ = true;
  } else {
    sqlite3_close(db_);
    throw IOError("Unable to create/open database " + path_);
  }''','''  const char* p = path_.c_str();
  if ((readonly_ && sqlite3_open_v2(p, &db_, SQLITE_OPEN_READONLY,
                                    NULL) == SQLITE_OK) ||
      sqlite3_open(p, &db_) == SQLITE_OK) {
    isOpen_ = true;
    return;
  }
  sqlite3_close(db_);
  throw IOError("Unable to create/open database " + path_);'''))
v('db3',(SQ,'''  while (true) {
    result = sqlite3_step(statement);
    if (result != SQLITE_ROW) {
      break;
    }

    StrList values;
    for (int col = 0; col < cols; col++) {
      std::string  val;
      char* ptr = (char*)sqlite3_column_text(statement, col);
      if (ptr) {
        val = ptr;
      } else {
        val = "";
      }
      values.push_back(val);  // now we will never push NULL
    }
    results.push_back(values);
  }''','''  while ((result = sqlite3_step(statement)) == SQLITE_ROW) {
    StrList values;
    for (int col = 0; col < cols; col++) {
      char* ptr = (char*)sqlite3_column_text(statement, col);
      values.push_back(ptr ? ptr : "");  // now we will never push NULL
    }
    results.push_back(values);
  }'''))
v('db4',(SQ,'''  if (status != SQLITE_OK && status != SQLITE_DONE && status != SQLITE_ROW) {
    std::string err = sqlite3_errmsg(db_);
    throw IOError("SQL error [" + zSql_ + "]: " + err);
  }''','''  switch (status) {
    case SQLITE_OK:
    case SQLITE_DONE:
    case SQLITE_ROW:
      return;
    default:
      throw IOError("SQL error [" + zSql_ + "]: " + sqlite3_errmsg(db_));
  }'''))
v('db5',(SQ,'''  result = sqlite3_step(statement);
  if (result != SQLITE_DONE && result != SQLITE_ROW && result != SQLITE_OK) {
    std::string error = sqlite3_errmsg(db_);
    throw IOError("SQL error: " + sql + " " + error);
  }

  sqlite3_finalize(statement);''','''  result = sqlite3_step(statement);
  bool good =
      result == SQLITE_DONE || result == SQLITE_ROW || result == SQLITE_OK;
  if (!good) {
    throw IOError("SQL error: " + sql + " " +
                  std::string(sqlite3_errmsg(db_)));
  }
  sqlite3_finalize(statement);'''))
v('cc1',(CC,'''      : capacity_(capacity),
        id_(next_id_++) {
    if (capacity_ <= 0)
      throw ValueError("Capacity is not positive, no trades will be executed");
    converter_ = typename Converter<T>::Ptr(new TrivialConverter<T>());
  }''','''      : capacity_(capacity),
        converter_(new TrivialConverter<T>()),
        id_(next_id_++) {
    if (!(capacity > 0))
      throw ValueError("Capacity is not positive, no trades will be executed");
  }'''))
v('cc2',(CC,'''  return  ((lhs.capacity() == rhs.capacity()) &&
           (*lhs.converter() == *rhs.converter()));''','''  if (lhs.capacity() != rhs.capacity()) {
    return false;
  }
  return *lhs.converter() == *rhs.converter();'''))
v('cp1',(CP,'''        cap_buffs = {}
        for member, info in ctx.items():
            if not isinstance(info, Mapping):
                # this member is a variable alias pointer
                continue

            if self.pragmaname in info:
                impl += info[self.pragmaname]
            elif info['type'] not in BUFFERS:
                impl += ind + "{0} = m->{0};\\n".format(member)
            else:
                cap_buffs[member] = info

        for b, info in cap_buffs.items():''','''        cap_buffs = []
        members = [(k, i) for k, i in ctx.items() if isinstance(i, Mapping)]
        for member, info in members:
            if self.pragmaname in info:
                impl += info[self.pragmaname]
            elif info['type'] in BUFFERS:
                cap_buffs.append((member, info))
            else:
                impl += "%s%s = m->%s;\\n" % (ind, member, member)

        for b, info in cap_buffs:'''))
