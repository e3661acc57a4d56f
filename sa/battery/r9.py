V=[]
def v(name,*e): V.append((name,None,list(e)))
Q='src/query_backend.h'; I='src/toolkit/infile_converters.cc'; L='src/l_matrix.cc'; U='src/uniform_taylor.cc'; K='agents/k_facility.cc'; G='src/logger.cc'
v('cond-ctor',(Q,'''        val(val) {
    if (op == "<")
      opcode = LT;
    else if (op == ">")
      opcode = GT;
    else if (op == "<=")
      opcode = LE;
    else if (op == ">=")
      opcode = GE;
    else if (op == "==")
      opcode = EQ;
    else if (op == "!=")
      opcode = NE;
    else
      throw ValueError("operation '" + op + "' not valid for field '" + \\
                       field + "'.");
  }
''','''        val(val) {
    opcode = ParseOp(op, field);
  }

  static CmpOpCode ParseOp(const std::string& op, const std::string& field) {
    if (op == "<") return LT;
    if (op == ">") return GT;
    if (op == "<=") return LE;
    if (op == ">=") return GE;
    if (op == "==") return EQ;
    if (op == "!=") return NE;
    throw ValueError("operation '" + op + "' not valid for field '" +
                     field + "'.");
  }
'''))
v('getval',(Q,'''    int field_idx = -1;
    for (int i = 0; i < fields.size(); ++i) {
      if (fields[i] == field) {
        field_idx = i;
        break;
      }
    }
    if (field_idx == -1) {
      throw KeyError("query result has no such field " + field);
    }

    return rows[row][field_idx].cast<T>();
''','''    for (int i = 0; i < fields.size(); ++i) {
      if (fields[i] == field) {
        return rows[row][i].cast<T>();
      }
    }
    throw KeyError("query result has no such field " + field);
'''))
v('injector',(Q,'''    std::vector<Cond> c = *conds;
    for (int i = 0; i < to_inject_.size(); ++i) {
      c.push_back(to_inject_[i]);
    }
    return b_->Query(table, &c);
''','''    std::vector<Cond> all(*conds);
    all.insert(all.end(), to_inject_.begin(), to_inject_.end());
    return b_->Query(table, &all);
'''))
v('cmpcond',(Q,'''  bool rtn;
  switch (cond->opcode) {
    case LT: {
      rtn = (*x) < cond->val.cast<T>();
      break;
    }
    case GT: {
      rtn = (*x) > cond->val.cast<T>();
      break;
    }
    case LE: {
      rtn = (*x) <= cond->val.cast<T>();
      break;
    }
    case GE: {
      rtn = (*x) >= cond->val.cast<T>();
      break;
    }
    case EQ: {
      rtn = (*x) == cond->val.cast<T>();
      break;
    }
    case NE: {
      rtn = (*x) != cond->val.cast<T>();
      break;
    }
  }
  return rtn;
''','''  bool rtn;
  const T& y = cond->val.cast<T>();
  switch (cond->opcode) {
    case LT: rtn = *x < y; break;
    case GT: rtn = *x > y; break;
    case LE: rtn = *x <= y; break;
    case GE: rtn = *x >= y; break;
    case EQ: rtn = *x == y; break;
    case NE: rtn = *x != y; break;
  }
  return rtn;
'''))
v('cmpcond2',(Q,'''  int i;
  for (i = 0; i < conds->size(); ++i)
    if (!CmpCond<T>(&(*x), (*conds)[i]))
      return false;
  return true;
''','''  bool ok = true;
  for (Cond* c : *conds) {
    if (!CmpCond<T>(x, c)) {
      ok = false;
      break;
    }
  }
  return ok;
'''))
v('conv1',(I,'''  if (node.isMember(key)) {
    if (node[key].isArray()) {
      node[key].append(val);
    } else {
      Value keynode = node[key];
      keynode = Value(Json::arrayValue);
      keynode.append(node[key]);
      keynode.append(val);
      node[key] = keynode;
    }
  } else {
    node[key] = val;
  }
''','''  if (!node.isMember(key)) {
    node[key] = val;
    return;
  }
  if (node[key].isArray()) {
    node[key].append(val);
    return;
  }
  Value both(Json::arrayValue);
  both.append(node[key]);
  both.append(val);
  node[key] = both;
'''))
v('conv2',(I,'''  Value root;
  Json::Reader reader;
  bool parsed = reader.parse(s, root, false);
  if (!parsed) {
    string msg = "Failed to parse JSON file into XML:\\n" + \\
                 reader.getFormattedErrorMessages();
    throw ValidationError(msg);
  }
''','''  Value root;
  Json::Reader reader;
  if (!reader.parse(s, root, false)) {
    throw ValidationError("Failed to parse JSON file into XML:\\n" +
                          reader.getFormattedErrorMessages());
  }
'''),(I,'''    string name = xnode->GetElementName(i);
    InfileTree* subxnode = xnode->SubTree("*", i);
    Value val;
    if (subxnode->NElements() == 0) {
      try {
        val = Value(subxnode->GetString("."));
      } catch (cyclus::ValueError& e) {
        val = Value(Json::nullValue);
      }
    } else {
      val = Value(Json::objectValue);
      AddXmlToJson(subxnode, val, name);
    }
''','''    const string name = xnode->GetElementName(i);
    InfileTree* subxnode = xnode->SubTree("*", i);
    Value val;
    const bool leaf = subxnode->NElements() == 0;
    if (!leaf) {
      val = Value(Json::objectValue);
      AddXmlToJson(subxnode, val, name);
    } else {
      try {
        val = Value(subxnode->GetString("."));
      } catch (cyclus::ValueError& e) {
        val = Value(Json::nullValue);
      }
    }
'''))
v('conv3',(I,'''    for (int n = 0; n < members.size(); ++n) {
      name = members[n];
      if (node[name].isNull() ||
          (node[name].isArray() && node[name].size() == 0)) {
        ss << indent << "<" << name << "/>\\n";
        continue;
      }
      indent_child = node[name].isObject();
      if (!indent_child && node[name].isArray())
        indent_child = node[name][0].isObject() || node[name][0].isArray();
      ss << indent << "<" << name << ">";
      if (indent_child)
        ss << "\\n";
      AddJsonToXml(node[name], ss, name, newindent);
''','''    for (int n = 0; n < members.size(); ++n) {
      name = members[n];
      Value& child = node[name];
      if (child.isNull() || (child.isArray() && child.size() == 0)) {
        ss << indent << "<" << name << "/>\\n";
        continue;
      }
      indent_child = child.isObject() ||
          (child.isArray() && (child[0].isObject() || child[0].isArray()));
      ss << indent << "<" << name << ">";
      if (indent_child) {
        ss << "\\n";
      }
      AddJsonToXml(child, ss, name, newindent);
'''))
v('lm1',(L,'''  long double aij;  // stores temporary matrix element for row i and column j

  // creates a new matrix''','''  // creates a new matrix'''),(L,'''        aij = 0;  // resets the sum for the next element

        // sums the product of the row vector from A and the column vector
        // from B using the formula aij = ai1*b1j + ai2*b2j + ...
        for (int k = 0; k < cols_; k++) {
          aij = aij + M_[i][k] * rhs.M_[k][j];
        }
''','''        long double aij = 0;
        for (int k = 0; k < cols_; ++k) {
          aij += M_[i][k] * rhs.M_[k][j];
        }
'''))
v('lm2',(L,'''LMatrix operator*(const LMatrix& A, const long double k) {
  LMatrix ans(A);  // copies A into a new matrix called ans
  long double aij;

  // multiplies every element in the matrix A by the scalar k
  for (int i = 0; i < A.rows_; i++) {
    for (int j = 0; j < A.cols_; j++) {
      aij = A(i + 1, j + 1) * k;
      ans.M_[i][j] = aij;
    }
  }

  return ans;  // returns the resulting matrix A * k
}''','''LMatrix operator*(const LMatrix& A, const long double k) {
  return k * A;
}'''))
v('lm3',(L,'''  if (this == &rhs) {
    return *this;     // returns A if it is already the same matrix as B
  } else {
    rows_ = rhs.rows_;  // resets the number of rows to match B
    cols_ = rhs.cols_;  // resets the number of columns to match B

    // rebuilds A with the dimensions of B
    std::vector<long double> row(cols_);   // creates a row with m elements
    M_.assign(rows_, row);

    // copies all of the elements from B into A
    for (int i = 0; i < rows_; i++) {
      for (int j = 0; j < cols_; j++) {
        M_[i][j] = rhs.M_[i][j];
      }
    }

    return *this;  // returns the new matrix "A = B"
  }
''','''  if (this != &rhs) {
    rows_ = rhs.rows_;
    cols_ = rhs.cols_;
    M_.assign(rows_, std::vector<long double>(cols_));
    for (int i = 0; i < rows_; ++i) {
      for (int j = 0; j < cols_; ++j) {
        M_[i][j] = rhs.M_[i][j];
      }
    }
  }
  return *this;
'''))
v('lm4',(L,'''  int size = row.size();
  if (size == cols_) {
    M_.push_back(row);
    ++rows_;  // increase the number of rows
  }
''','''  if (static_cast<int>(row.size()) != cols_) return;
  rows_ += 1;
  M_.push_back(row);
'''),(L,'''  for (int i = 0; i < n ; i++) {
    I.SetElement(i + 1, i + 1, 1);
  }
''','''  for (int i = 1; i <= n ; i++) {
    I.SetElement(i, i, 1);
  }
'''))
v('ut1',(U,'''  Matrix B = identity(n);
  B = alpha * B;
  B += A;

  // steps 3-7 of algorithm: computes the solution Vector x_t
  double tol = 1e-3;
  Vector x_t = x_o;

  x_t = GetSolutionVector(B, x_o, alpha, t, tol);

  return x_t;
''','''  Matrix B = alpha * identity(n);
  B += A;

  // steps 3-7 of algorithm: computes the solution Vector x_t
  const double tol = 1e-3;
  return GetSolutionVector(B, x_o, alpha, t, tol);
'''),(U,'''  double a_ii = A(1, 1);     // begins with the first diagonal element

  // Initializes the maximum diagonal element to the absolute value of the
  // first diagonal element a_ii
  a_ii = fabs(a_ii);
  double max_a_ii = a_ii;

  // Searches the remaining diagonal elements for the largest absolute value
  for (int i = 2; i <= n; ++i) {
    a_ii = A(i, i);
    a_ii = fabs(a_ii);

    if (a_ii > max_a_ii) {
      max_a_ii = a_ii;
    }
  }
''','''  double max_a_ii = fabs(A(1, 1));
  for (int i = 2; i <= n; ++i) {
    const double a_ii = fabs(A(i, i));
    if (a_ii > max_a_ii) max_a_ii = a_ii;
  }
'''))
v('ut2',(U,'''  int p = 1;
  bool stopSum = false;

  while (stopSum != true) {
    // checks if the sum of terms is greater than the lower error bound
    if (sumTerms >= lowerBound) {
      stopSum = true;
    } else {
      // computes the next term in the series
      nextTerm = (alpha_t / p) * prevTerm;

      // adds the next term to the sum of terms and updates the total number
      // of terms in the series
      sumTerms += nextTerm;
      ++p;

      // resets the previous term for the next iteration of the loop
      prevTerm = nextTerm;
    }
  }
''','''  int p = 1;
  while (sumTerms < lowerBound) {
    nextTerm = (alpha_t / p) * prevTerm;
    sumTerms += nextTerm;
    ++p;
    prevTerm = nextTerm;
  }
'''))
v('ut3',(U,'''  for (int k = 1; k < maxTerms; ++k) {
    // step 6a of algorithm: computes the next term in the series
    C_next = (t / k) * B;
    C_next *= C_prev;

    // step 6b of algorithm: updates the solution Ck_sum
    Ck_sum += C_next;

    // step 6c of algorithm: resets the previous term for the next iteration
    C_prev = C_next;
  }
''','''  int k = 1;
  while (k < maxTerms) {
    C_next = (t / k) * B;
    C_next *= C_prev;
    C_prev = C_next;
    Ck_sum += C_next;
    ++k;
  }
'''))
v('kf1',(K,'''  if (commod_requests.count(out_commod) > 0) {
    BidPortfolio<Material>::Ptr port(new BidPortfolio<Material>());

    std::vector<Request<Material>*>& requests = commod_requests.at(
        out_commod);

    std::vector<Request<Material>*>::iterator it;
    for (it = requests.begin(); it != requests.end(); ++it) {
      Request<Material>* req = *it;
      Material::Ptr offer = GetOffer(req->target());
      port->AddBid(req, offer, this);
    }

    CapacityConstraint<Material> cc(out_capacity);
    port->AddConstraint(cc);
    ports.insert(port);
  }
  return ports;
''','''  if (commod_requests.count(out_commod) == 0) return ports;

  BidPortfolio<Material>::Ptr port(new BidPortfolio<Material>());
  for (Request<Material>* req : commod_requests[out_commod]) {
    port->AddBid(req, GetOffer(req->target()), this);
  }
  port->AddConstraint(CapacityConstraint<Material>(out_capacity));
  ports.insert(port);
  return ports;
'''),(K,'''  in_capacity = in_capacity * k_factor_in;
  out_capacity = out_capacity * k_factor_out;
  current_capacity = out_capacity;
''','''  in_capacity *= k_factor_in;
  current_capacity = out_capacity * k_factor_out;
  out_capacity = current_capacity;
'''))
v('kf2',(K,'''  double provided = 0;
  std::vector< cyclus::Trade<cyclus::Material> >::const_iterator it;
  for (it = trades.begin(); it != trades.end(); ++it) {
    double qty = it->amt;
    current_capacity -= qty;
    provided += qty;
    // @TODO we need a policy on negatives..
    Material::Ptr response = Material::Create(this, qty,
                                              context()->GetRecipe(recipe_name));
    responses.push_back(std::make_pair(*it, response));
''','''  double provided = 0;
  for (const Trade<Material>& trade : trades) {
    const double qty = trade.amt;
    provided += qty;
    Material::Ptr response = Material::Create(this, qty,
                                              context()->GetRecipe(recipe_name));
    responses.push_back(std::make_pair(trade, response));
    current_capacity -= qty;
'''),(K,'''  std::vector< std::pair<cyclus::Trade<cyclus::Product>,
  cyclus::Product::Ptr> >::const_iterator it;
  for (it = responses.begin(); it != responses.end(); ++it) {
    inventory.Push(it->second);
  }
''','''  for (size_t i = 0; i < responses.size(); ++i) {
    inventory.Push(responses[i].second);
  }
'''))
v('lg1',(G,'''  int ind_level = level - LEV_INFO1;
  if (ind_level < 0) {
    ind_level = 0;
  }
''','''  int ind_level = level > LEV_INFO1 ? level - LEV_INFO1 : 0;
'''),(G,'''  std::string text;
  try {
    text = level_to_string.at((int)level);
  } catch (...) {
    text = "BAD_LEVEL";
  }
  return text;
''','''  try {
    return level_to_string.at((int)level);
  } catch (...) {
    return "BAD_LEVEL";
  }
'''),(G,'''  if (string_to_level.count(text) > 0) {
    return string_to_level[text];
  } else {
    return LEV_ERROR;
  }
''','''  std::map<std::string, LogLevel>::iterator it = string_to_level.find(text);
  return it == string_to_level.end() ? LEV_ERROR : it->second;
'''))
