fn cyclus::SqliteBack::~SqliteBack
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.cyclus::SqliteBack::Flush() IF T
  call this.db_.cyclus::SqliteDb::close() IF T
fn cyclus::SqliteBack::SqliteBack
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  set this.db_($0) IF T
  set this.tbl_names_(set{}) IF T
  set this.stmts_(map{}) IF T
  set this.schemas_(map{}) IF T
  set this.path_($0) IF T
  call $0.cyclus::SqliteDb::open() IF T
  call $0.cyclus::SqliteDb::Execute("PRAGMA synchronous=OFF;") IF T
  call $0.cyclus::SqliteDb::Execute("PRAGMA journal_mode=MEMORY;") IF T
  call $0.cyclus::SqliteDb::Execute("PRAGMA temp_store=MEMORY;") IF T
  call $0.cyclus::SqliteDb::Prepare("SELECT name FROM sqlite_master WHERE type='table';") IF T
  [for while] add this.tbl_names_.add($0.Prepare("SELECT name FROM sqlite_master WHERE type='table';").GetText(0,NULL)) IF $0.Prepare("SELECT name FROM sqlite_master WHERE type='table';").Step() & !has(this.tbl_names_,$0.Prepare("SELECT name FROM sqlite_master WHERE type='table';").GetText(0,NULL))
  call $0.cyclus::SqliteDb::Execute("CREATE TABLE IF NOT EXISTS FieldTypes(TableName TEXT,Field TEXT,Type INTEGER);") IF !has(fold(while; set{}; ~'),"FieldTypes")
  leave !$0.Prepare("SELECT name FROM sqlite_master WHERE type='table';").Step()
fn cyclus::SqliteBack::Notify
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.db_.cyclus::SqliteDb::Execute("BEGIN TRANSACTION;") IF T
  [for $0] call this.cyclus::SqliteBack::CreateTable(elem($0)) IF !has(this.tbl_names_',elem($0).title_)
  [for $0] call this.cyclus::SqliteBack::BuildStmt(elem($0)) IF !has(this.stmts_',elem($0).title_)
  [for $0] call this.cyclus::SqliteBack::WriteDatum(elem($0)) IF T
  * call this.db_.cyclus::SqliteDb::Execute("END TRANSACTION;") IF T
  throw rethrow() IF caught(...) & !empty($0)
  call this.cyclus::SqliteBack::Flush() IF T
  seq 2<3
fn cyclus::SqliteBack::Flush
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
fn cyclus::SqliteBack::Schema
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.cyclus::SqliteBack::GetTableInfo($0) IF T
  [for this.GetTableInfo($0).fields] add @list<ColumnInfo>.add(ColumnInfo{$0,elem(this.GetTableInfo($0).fields),idx(this.GetTableInfo($0).fields),this.GetTableInfo($0).types[idx(this.GetTableInfo($0).fields)],vector{}}) IF T
  ret return(@list<ColumnInfo>) IF T
fn cyclus::SqliteBack::Query
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.cyclus::SqliteBack::GetTableInfo($0) IF T
  call this.db_.cyclus::SqliteDb::Prepare(fold($1; "SELECT * FROM " ++ $0 ++ " WHERE "; !idx($1) >= 1:~ ++ elem($1).field ++ " " ++ elem($1).op ++ " ?" ; idx($1) >= 1:~ ++ " AND " ++ elem($1).field ++ " " ++ elem($1).op ++ " ?") ++ ";") IF $1
  call this.db_.cyclus::SqliteDb::Prepare("SELECT * FROM " ++ $0 ++ ";") IF !$1
  [for $1] call this.cyclus::SqliteBack::Type(elem($1).val) IF $1
  [for $1] call this.cyclus::SqliteBack::Bind(elem($1).val, this.Type(elem($1).val), this.db_.Prepare(fold($1; "SELECT * FROM " ++ $0 ++ " WHERE "; !idx($1) >= 1:~ ++ elem($1).field ++ " " ++ elem($1).op ++ " ?" ; idx($1) >= 1:~ ++ " AND " ++ elem($1).field ++ " " ++ elem($1).op ++ " ?") ++ ";"), (idx($1)+1)) IF $1
  [for while] [for @QueryResult{this.GetTableInfo($0)}.fields] call this.cyclus::SqliteBack::ColAsVal(this.db_.Prepare(fold($1; "SELECT * FROM " ++ $0 ++ " WHERE "; !idx($1) >= 1:~ ++ elem($1).field ++ " " ++ elem($1).op ++ " ?" ; idx($1) >= 1:~ ++ " AND " ++ elem($1).field ++ " " ++ elem($1).op ++ " ?") ++ ";"), idx(@QueryResult{this.GetTableInfo($0)}.fields), @QueryResult{this.GetTableInfo($0)}.types[idx(@QueryResult{this.GetTableInfo($0)}.fields)]) IF $1 & this.db_.Prepare(fold($1; "SELECT * FROM " ++ $0 ++ " WHERE "; !idx($1) >= 1:~ ++ elem($1).field ++ " " ++ elem($1).op ++ " ?" ; idx($1) >= 1:~ ++ " AND " ++ elem($1).field ++ " " ++ elem($1).op ++ " ?") ++ ";").Step()
  [for while] [for @QueryResult{this.GetTableInfo($0)}.fields] call this.cyclus::SqliteBack::ColAsVal(this.db_.Prepare("SELECT * FROM " ++ $0 ++ ";"), idx(@QueryResult{this.GetTableInfo($0)}.fields), @QueryResult{this.GetTableInfo($0)}.types[idx(@QueryResult{this.GetTableInfo($0)}.fields)]) IF !$1 & this.db_.Prepare("SELECT * FROM " ++ $0 ++ ";").Step()
  [for while] [for @QueryResult{this.GetTableInfo($0)}.fields] add @vector<boost::spirit::basic_hold_any<char>>.add(this.ColAsVal(this.db_.Prepare(fold($1; "SELECT * FROM " ++ $0 ++ " WHERE "; !idx($1) >= 1:~ ++ elem($1).field ++ " " ++ elem($1).op ++ " ?" ; idx($1) >= 1:~ ++ " AND " ++ elem($1).field ++ " " ++ elem($1).op ++ " ?") ++ ";"),idx(@QueryResult{this.GetTableInfo($0)}.fields),@QueryResult{this.GetTableInfo($0)}.types[idx(@QueryResult{this.GetTableInfo($0)}.fields)])) IF $1 & this.db_.Prepare(fold($1; "SELECT * FROM " ++ $0 ++ " WHERE "; !idx($1) >= 1:~ ++ elem($1).field ++ " " ++ elem($1).op ++ " ?" ; idx($1) >= 1:~ ++ " AND " ++ elem($1).field ++ " " ++ elem($1).op ++ " ?") ++ ";").Step()
  [for while] [for @QueryResult{this.GetTableInfo($0)}.fields] add @vector<boost::spirit::basic_hold_any<char>>.add(this.ColAsVal(this.db_.Prepare("SELECT * FROM " ++ $0 ++ ";"),idx(@QueryResult{this.GetTableInfo($0)}.fields),@QueryResult{this.GetTableInfo($0)}.types[idx(@QueryResult{this.GetTableInfo($0)}.fields)])) IF !$1 & this.db_.Prepare("SELECT * FROM " ++ $0 ++ ";").Step()
  [for while] add @QueryResult{this.GetTableInfo($0)}.rows.add(@vector<boost::spirit::basic_hold_any<char>>) IF !$1 & this.db_.Prepare("SELECT * FROM " ++ $0 ++ ";").Step() | $1 & this.db_.Prepare(fold($1; "SELECT * FROM " ++ $0 ++ " WHERE "; !idx($1) >= 1:~ ++ elem($1).field ++ " " ++ elem($1).op ++ " ?" ; idx($1) >= 1:~ ++ " AND " ++ elem($1).field ++ " " ++ elem($1).op ++ " ?") ++ ";").Step()
  ret return(@QueryResult{this.GetTableInfo($0)}{rows=fold(while; @QueryResult{this.GetTableInfo($0)}.rows; ~')}) IF T
  leave !$1 & !this.db_.Prepare("SELECT * FROM " ++ $0 ++ ";").Step() | $1 & !this.db_.Prepare(fold($1; "SELECT * FROM " ++ $0 ++ " WHERE "; !idx($1) >= 1:~ ++ elem($1).field ++ " " ++ elem($1).op ++ " ?" ; idx($1) >= 1:~ ++ " AND " ++ elem($1).field ++ " " ++ elem($1).op ++ " ?") ++ ";").Step()
fn cyclus::SqliteBack::ColumnTypes
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.cyclus::SqliteBack::GetTableInfo($0) IF T
  [for this.GetTableInfo($0).fields] put @map<basic_string<char>, DbTypes>.put(elem(this.GetTableInfo($0).fields), this.GetTableInfo($0).types[idx(this.GetTableInfo($0).fields)]) IF T
  ret return(@map<basic_string<char>, DbTypes>) IF T
fn cyclus::SqliteBack::Tables
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.db_.cyclus::SqliteDb::Prepare("SELECT name FROM sqlite_master WHERE type='table';") IF T
  [for while] add @set<basic_string<char>>.add(this.db_.Prepare("SELECT name FROM sqlite_master WHERE type='table';").GetText(0,NULL)) IF !has(@set<basic_string<char>>,this.db_.Prepare("SELECT name FROM sqlite_master WHERE type='table';").GetText(0,NULL)) & this.db_.Prepare("SELECT name FROM sqlite_master WHERE type='table';").Step()
  del @set<basic_string<char>>.erase("FieldTypes") IF has(fold(while; @set<basic_string<char>>; ~'),"FieldTypes")
  ret return(@set<basic_string<char>>') IF T
  leave !this.db_.Prepare("SELECT name FROM sqlite_master WHERE type='table';").Step()
fn cyclus::SqliteBack::db
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  ret return(this.db_) IF T
fn cyclus::SqliteBack::GetTableInfo
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.db_.cyclus::SqliteDb::Prepare("SELECT Field,Type FROM FieldTypes WHERE TableName = '" ++ $0 ++ "';") IF T
  [for while] add @QueryResult.fields.add(this.db_.Prepare("SELECT Field,Type FROM FieldTypes WHERE TableName = '" ++ $0 ++ "';").GetText(0,NULL)) IF this.db_.Prepare("SELECT Field,Type FROM FieldTypes WHERE TableName = '" ++ $0 ++ "';").Step()
  [for while] add @QueryResult.types.add(sqlite3_column_int(this.db_.Prepare("SELECT Field,Type FROM FieldTypes WHERE TableName = '" ++ $0 ++ "';").stmt_,1)) IF this.db_.Prepare("SELECT Field,Type FROM FieldTypes WHERE TableName = '" ++ $0 ++ "';").Step()
  throw cyclus::ValueError() IF iters(while) == 0
  ret return(@QueryResult{fields=filled(while; @QueryResult.fields); types=filled(while; @QueryResult.types)}) IF !iters(while) == 0
  leave !this.db_.Prepare("SELECT Field,Type FROM FieldTypes WHERE TableName = '" ++ $0 ++ "';").Step()
fn cyclus::SqliteBack::Name
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  ret return(this.path_) IF T
fn cyclus::SqliteBack::BuildStmt
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.cyclus::SqliteBack::Type($0.vals_[0].second) IF T
  [for range((size($0.vals_)-1))] call this.cyclus::SqliteBack::Type($0.vals_[(idx(range((size($0.vals_)-1)))+1)].second) IF T
  put this.schemas_.put($0.title_, fold(range((size($0.vals_)-1)); [this.Type($0.vals_[0].second)]; ~')) IF T
  call this.db_.cyclus::SqliteDb::Prepare(fold(range((size($0.vals_)-1)); "INSERT INTO " ++ $0.title_ ++ " VALUES (?"; ~ ++ ", ?") ++ ");") IF T
  put this.stmts_.put($0.title_, this.db_.Prepare(fold(range((size($0.vals_)-1)); "INSERT INTO " ++ $0.title_ ++ " VALUES (?"; ~ ++ ", ?") ++ ");")) IF T
fn cyclus::SqliteBack::CreateTable
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  add this.tbl_names_.add($0.title_) IF !has(this.tbl_names_,$0.title_)
  call this.cyclus::SqliteBack::Type($0.vals_.begin().second) IF T
  call this.db_.cyclus::SqliteDb::Execute("INSERT INTO FieldTypes VALUES ('" ++ $0.title_ ++ "','" ++ $0.vals_.begin().first ++ "','" ++ this.Type($0.vals_.begin().second) ++ "');") IF T
  call this.cyclus::SqliteBack::SqlType($0.vals_.begin().second) IF T
  [for $0.vals_] call this.cyclus::SqliteBack::SqlType(elem($0.vals_).second) IF T
  [for $0.vals_] call this.cyclus::SqliteBack::Type(elem($0.vals_).second) IF T
  [for $0.vals_] call this.db_.cyclus::SqliteDb::Execute("INSERT INTO FieldTypes VALUES ('" ++ $0.title_ ++ "','" ++ elem($0.vals_).first ++ "','" ++ this.Type(elem($0.vals_).second) ++ "');") IF T
  call this.db_.cyclus::SqliteDb::Execute(fold($0.vals_; "CREATE TABLE " ++ $0.title_ ++ " (" ++ $0.vals_.begin().first ++ " " ++ this.SqlType($0.vals_.begin().second); ~ ++ ", " ++ elem($0.vals_).first ++ " " ++ this.SqlType(elem($0.vals_).second)) ++ ");") IF T
fn cyclus::SqliteBack::WriteDatum
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  [for $0.vals_] call this.cyclus::SqliteBack::Bind(elem($0.vals_).second, this.schemas_[$0.title_][idx($0.vals_)], this.stmts_[$0.title_], (idx($0.vals_)+1)) IF T
  call this.stmts_[$0.title_].cyclus::SqlStatement::Exec() IF T
fn cyclus::SqliteBack::Bind
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call $2.cyclus::SqlStatement::BindInt($3, $0.cast(of(int))) IF $1 == cyclus::INT
  call $2.cyclus::SqlStatement::BindInt($3, $0.cast(of(bool))) IF $1 == cyclus::BOOL
  call $2.cyclus::SqlStatement::BindDouble($3, $0.cast(of(double))) IF $1 == cyclus::DOUBLE
  call $2.cyclus::SqlStatement::BindDouble($3, $0.cast(of(float))) IF $1 == cyclus::FLOAT
  call $2.cyclus::SqlStatement::BindBlob($3, $0.cast(of(cyclus::Blob)).str_, size($0.cast(of(cyclus::Blob)).str_)) IF $1 == cyclus::BLOB
  call $2.cyclus::SqlStatement::BindText($3, $0.cast(of(std::basic_string<char>))) IF $1 == cyclus::STRING
  call $2.cyclus::SqlStatement::BindBlob($3, $0.cast(of(boost::uuids::uuid)).data, 16) IF $1 == cyclus::UUID
  call $2.cyclus::SqlStatement::BindBlob($3, @basic_stringstream<char>, size(@basic_stringstream<char>)) IF $1 == cyclus::LIST_INT | $1 == cyclus::LIST_PAIR_INT_INT | $1 == cyclus::LIST_STRING | $1 == cyclus::MAP_INT_DOUBLE | $1 == cyclus::MAP_INT_INT | $1 == cyclus::MAP_INT_MAP_STRING_DOUBLE | $1 == cyclus::MAP_INT_STRING | $1 == cyclus::MAP_PAIR_STRING_STRING_INT | $1 == cyclus::MAP_STRING_DOUBLE | $1 == cyclus::MAP_STRING_INT | $1 == cyclus::MAP_STRING_MAP_INT_DOUBLE | $1 == cyclus::MAP_STRING_MAP_STRING_DOUBLE | $1 == cyclus::MAP_STRING_MAP_STRING_INT | $1 == cyclus::MAP_STRING_PAIR_DOUBLE_MAP_INT_DOUBLE | $1 == cyclus::MAP_STRING_PAIR_STRING_VECTOR_DOUBLE | $1 == cyclus::MAP_STRING_STRING | $1 == cyclus::MAP_STRING_VECTOR_DOUBLE | $1 == cyclus::MAP_STRING_VECTOR_PAIR_INT_PAIR_STRING_STRING | $1 == cyclus::SET_INT | $1 == cyclus::SET_STRING | $1 == cyclus::VECTOR_DOUBLE | $1 == cyclus::VECTOR_INT | $1 == cyclus::VECTOR_PAIR_PAIR_DOUBLE_DOUBLE_MAP_STRING_DOUBLE | $1 == cyclus::VECTOR_STRING
  throw cyclus::ValueError() IF !$1 == cyclus::BLOB & !$1 == cyclus::BOOL & !$1 == cyclus::DOUBLE & !$1 == cyclus::FLOAT & !$1 == cyclus::INT & !$1 == cyclus::LIST_INT & !$1 == cyclus::LIST_PAIR_INT_INT & !$1 == cyclus::LIST_STRING & !$1 == cyclus::MAP_INT_DOUBLE & !$1 == cyclus::MAP_INT_INT & !$1 == cyclus::MAP_INT_MAP_STRING_DOUBLE & !$1 == cyclus::MAP_INT_STRING & !$1 == cyclus::MAP_PAIR_STRING_STRING_INT & !$1 == cyclus::MAP_STRING_DOUBLE & !$1 == cyclus::MAP_STRING_INT & !$1 == cyclus::MAP_STRING_MAP_INT_DOUBLE & !$1 == cyclus::MAP_STRING_MAP_STRING_DOUBLE & !$1 == cyclus::MAP_STRING_MAP_STRING_INT & !$1 == cyclus::MAP_STRING_PAIR_DOUBLE_MAP_INT_DOUBLE & !$1 == cyclus::MAP_STRING_PAIR_STRING_VECTOR_DOUBLE & !$1 == cyclus::MAP_STRING_STRING & !$1 == cyclus::MAP_STRING_VECTOR_DOUBLE & !$1 == cyclus::MAP_STRING_VECTOR_PAIR_INT_PAIR_STRING_STRING & !$1 == cyclus::SET_INT & !$1 == cyclus::SET_STRING & !$1 == cyclus::STRING & !$1 == cyclus::UUID & !$1 == cyclus::VECTOR_DOUBLE & !$1 == cyclus::VECTOR_INT & !$1 == cyclus::VECTOR_PAIR_PAIR_DOUBLE_DOUBLE_MAP_STRING_DOUBLE & !$1 == cyclus::VECTOR_STRING
fn cyclus::SqliteBack::ColAsVal
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call memcpy(@boost::uuids::uuid, $0.GetText($1,NULL), 16) IF $2 == cyclus::UUID
  ret return(phi{$0.GetText($1,NULL)|@boost::uuids::uuid|@map<basic_string<char>, basic_string<char>>|@map<basic_string<char>, double>|@map<basic_string<char>, int>|@map<basic_string<char>, map<basic_string<char>, double>>|@map<basic_string<char>, map<basic_string<char>, int>>|@map<basic_string<char>, map<int, double>>|@map<basic_string<char>, pair<basic_string<char>, vector<double>>>|@map<basic_string<char>, pair<double, map<int, double>>>|@map<basic_string<char>, vector<double>>|@map<basic_string<char>, vector<pair<int, pair<basic_string<char>, basic_string<char>>>>>|@map<int, basic_string<char>>|@map<int, double>|@map<int, int>|@map<int, map<basic_string<char>, double>>|@map<pair<basic_string<char>, basic_string<char>>, int>|@set<basic_string<char>>|@set<int>|Blob{basic_string{$0.GetText($1,<uninit>),<uninit>'}}|list{}|sqlite3_column_double($0.stmt_,$1)|sqlite3_column_int($0.stmt_,$1)|vector{}}) IF $2 == cyclus::BLOB | $2 == cyclus::BOOL | $2 == cyclus::DOUBLE | $2 == cyclus::FLOAT | $2 == cyclus::INT | $2 == cyclus::LIST_INT | $2 == cyclus::LIST_PAIR_INT_INT | $2 == cyclus::LIST_STRING | $2 == cyclus::MAP_INT_DOUBLE | $2 == cyclus::MAP_INT_INT | $2 == cyclus::MAP_INT_MAP_STRING_DOUBLE | $2 == cyclus::MAP_INT_STRING | $2 == cyclus::MAP_PAIR_STRING_STRING_INT | $2 == cyclus::MAP_STRING_DOUBLE | $2 == cyclus::MAP_STRING_INT | $2 == cyclus::MAP_STRING_MAP_INT_DOUBLE | $2 == cyclus::MAP_STRING_MAP_STRING_DOUBLE | $2 == cyclus::MAP_STRING_MAP_STRING_INT | $2 == cyclus::MAP_STRING_PAIR_DOUBLE_MAP_INT_DOUBLE | $2 == cyclus::MAP_STRING_PAIR_STRING_VECTOR_DOUBLE | $2 == cyclus::MAP_STRING_STRING | $2 == cyclus::MAP_STRING_VECTOR_DOUBLE | $2 == cyclus::MAP_STRING_VECTOR_PAIR_INT_PAIR_STRING_STRING | $2 == cyclus::SET_INT | $2 == cyclus::SET_STRING | $2 == cyclus::STRING | $2 == cyclus::UUID | $2 == cyclus::VECTOR_DOUBLE | $2 == cyclus::VECTOR_INT | $2 == cyclus::VECTOR_PAIR_PAIR_DOUBLE_DOUBLE_MAP_STRING_DOUBLE | $2 == cyclus::VECTOR_STRING
  throw cyclus::ValueError() IF !$2 == cyclus::BLOB & !$2 == cyclus::BOOL & !$2 == cyclus::DOUBLE & !$2 == cyclus::FLOAT & !$2 == cyclus::INT & !$2 == cyclus::LIST_INT & !$2 == cyclus::LIST_PAIR_INT_INT & !$2 == cyclus::LIST_STRING & !$2 == cyclus::MAP_INT_DOUBLE & !$2 == cyclus::MAP_INT_INT & !$2 == cyclus::MAP_INT_MAP_STRING_DOUBLE & !$2 == cyclus::MAP_INT_STRING & !$2 == cyclus::MAP_PAIR_STRING_STRING_INT & !$2 == cyclus::MAP_STRING_DOUBLE & !$2 == cyclus::MAP_STRING_INT & !$2 == cyclus::MAP_STRING_MAP_INT_DOUBLE & !$2 == cyclus::MAP_STRING_MAP_STRING_DOUBLE & !$2 == cyclus::MAP_STRING_MAP_STRING_INT & !$2 == cyclus::MAP_STRING_PAIR_DOUBLE_MAP_INT_DOUBLE & !$2 == cyclus::MAP_STRING_PAIR_STRING_VECTOR_DOUBLE & !$2 == cyclus::MAP_STRING_STRING & !$2 == cyclus::MAP_STRING_VECTOR_DOUBLE & !$2 == cyclus::MAP_STRING_VECTOR_PAIR_INT_PAIR_STRING_STRING & !$2 == cyclus::SET_INT & !$2 == cyclus::SET_STRING & !$2 == cyclus::STRING & !$2 == cyclus::UUID & !$2 == cyclus::VECTOR_DOUBLE & !$2 == cyclus::VECTOR_INT & !$2 == cyclus::VECTOR_PAIR_PAIR_DOUBLE_DOUBLE_MAP_STRING_DOUBLE & !$2 == cyclus::VECTOR_STRING
fn cyclus::SqliteBack::SqlType
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  call this.cyclus::SqliteBack::Type($0) IF T
  ret return("INTEGER") IF this.Type($0) == cyclus::BOOL | this.Type($0) == cyclus::INT
  ret return("REAL") IF this.Type($0) == cyclus::DOUBLE | this.Type($0) == cyclus::FLOAT
  ret return("TEXT") IF this.Type($0) == cyclus::STRING
  ret return("BLOB") IF !this.Type($0) == cyclus::BOOL & !this.Type($0) == cyclus::DOUBLE & !this.Type($0) == cyclus::FLOAT & !this.Type($0) == cyclus::INT & !this.Type($0) == cyclus::STRING | this.Type($0) == cyclus::BLOB | this.Type($0) == cyclus::UUID
fn cyclus::SqliteBack::Type
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
  put cyclus::type_map.put(typeid(int), cyclus::INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(double), cyclus::DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(float), cyclus::FLOAT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(bool), cyclus::BOOL) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(cyclus::Blob), cyclus::BLOB) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(boost::uuids::uuid), cyclus::UUID) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::basic_string<char>), cyclus::STRING) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::set<int>), cyclus::SET_INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::set<std::basic_string<char>>), cyclus::SET_STRING) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::vector<int>), cyclus::VECTOR_INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::vector<double>), cyclus::VECTOR_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::vector<std::basic_string<char>>), cyclus::VECTOR_STRING) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::list<int>), cyclus::LIST_INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::list<std::basic_string<char>>), cyclus::LIST_STRING) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<int, int>), cyclus::MAP_INT_INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<int, double>), cyclus::MAP_INT_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<int, std::basic_string<char>>), cyclus::MAP_INT_STRING) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, int>), cyclus::MAP_STRING_INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, double>), cyclus::MAP_STRING_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, std::basic_string<char>>), cyclus::MAP_STRING_STRING) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, std::vector<double>>), cyclus::MAP_STRING_VECTOR_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, std::map<int, double>>), cyclus::MAP_STRING_MAP_INT_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, std::pair<double, std::map<int, double>>>), cyclus::MAP_STRING_PAIR_DOUBLE_MAP_INT_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<int, std::map<std::basic_string<char>, double>>), cyclus::MAP_INT_MAP_STRING_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, std::vector<std::pair<int, std::pair<std::basic_string<char>, std::basic_string<char>>>>>), cyclus::MAP_STRING_VECTOR_PAIR_INT_PAIR_STRING_STRING) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, std::pair<std::basic_string<char>, std::vector<double>>>), cyclus::MAP_STRING_PAIR_STRING_VECTOR_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, std::map<std::basic_string<char>, int>>), cyclus::MAP_STRING_MAP_STRING_INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::list<std::pair<int, int>>), cyclus::LIST_PAIR_INT_INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::vector<std::pair<std::pair<double, double>, std::map<std::basic_string<char>, double>>>), cyclus::VECTOR_PAIR_PAIR_DOUBLE_DOUBLE_MAP_STRING_DOUBLE) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::pair<std::basic_string<char>, std::basic_string<char>>, int>), cyclus::MAP_PAIR_STRING_STRING_INT) IF empty(cyclus::type_map)
  put cyclus::type_map.put(typeid(std::map<std::basic_string<char>, std::map<std::basic_string<char>, double>>), cyclus::MAP_STRING_MAP_STRING_DOUBLE) IF empty(cyclus::type_map)
  throw cyclus::ValueError() IF !has(cyclus::type_map,$0.type())
  ret return(cyclus::type_map[$0.type()]) IF has(cyclus::type_map,$0.type())
fn cyclus::SqliteBack::Close
  stop: SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)
fn cyclus::SqlStatement::~SqlStatement
  call sqlite3_finalize(this.stmt_) IF T
  call sqlite3_errmsg(this.db_) IF !sqlite3_finalize(this.stmt_) == 0 & !sqlite3_finalize(this.stmt_) == 100 & !sqlite3_finalize(this.stmt_) == 101
  throw cyclus::IOError() IF !sqlite3_finalize(this.stmt_) == 0 & !sqlite3_finalize(this.stmt_) == 100 & !sqlite3_finalize(this.stmt_) == 101
fn cyclus::SqlStatement::Exec
  call sqlite3_step(this.stmt_) IF T
  call sqlite3_errmsg(this.db_) IF !sqlite3_clear_bindings(this.stmt_) == 0 & !sqlite3_clear_bindings(this.stmt_) == 100 & !sqlite3_clear_bindings(this.stmt_) == 101 | !sqlite3_reset(this.stmt_) == 0 & !sqlite3_reset(this.stmt_) == 100 & !sqlite3_reset(this.stmt_) == 101 | !sqlite3_step(this.stmt_) == 0 & !sqlite3_step(this.stmt_) == 100 & !sqlite3_step(this.stmt_) == 101
  throw cyclus::IOError() IF !sqlite3_clear_bindings(this.stmt_) == 0 & !sqlite3_clear_bindings(this.stmt_) == 100 & !sqlite3_clear_bindings(this.stmt_) == 101 | !sqlite3_reset(this.stmt_) == 0 & !sqlite3_reset(this.stmt_) == 100 & !sqlite3_reset(this.stmt_) == 101 | !sqlite3_step(this.stmt_) == 0 & !sqlite3_step(this.stmt_) == 100 & !sqlite3_step(this.stmt_) == 101
  call sqlite3_reset(this.stmt_) IF sqlite3_step(this.stmt_) == 0 | sqlite3_step(this.stmt_) == 100 | sqlite3_step(this.stmt_) == 101
  call sqlite3_clear_bindings(this.stmt_) IF sqlite3_reset(this.stmt_) == 0 & sqlite3_step(this.stmt_) == 0 | sqlite3_reset(this.stmt_) == 0 & sqlite3_step(this.stmt_) == 100 | sqlite3_reset(this.stmt_) == 0 & sqlite3_step(this.stmt_) == 101 | sqlite3_reset(this.stmt_) == 100 & sqlite3_step(this.stmt_) == 0 | sqlite3_reset(this.stmt_) == 100 & sqlite3_step(this.stmt_) == 100 | sqlite3_reset(this.stmt_) == 100 & sqlite3_step(this.stmt_) == 101 | sqlite3_reset(this.stmt_) == 101 & sqlite3_step(this.stmt_) == 0 | sqlite3_reset(this.stmt_) == 101 & sqlite3_step(this.stmt_) == 100 | sqlite3_reset(this.stmt_) == 101 & sqlite3_step(this.stmt_) == 101
fn cyclus::SqlStatement::Reset
  call sqlite3_reset(this.stmt_) IF T
  call sqlite3_errmsg(this.db_) IF !sqlite3_clear_bindings(this.stmt_) == 0 & !sqlite3_clear_bindings(this.stmt_) == 100 & !sqlite3_clear_bindings(this.stmt_) == 101 | !sqlite3_reset(this.stmt_) == 0 & !sqlite3_reset(this.stmt_) == 100 & !sqlite3_reset(this.stmt_) == 101
  throw cyclus::IOError() IF !sqlite3_clear_bindings(this.stmt_) == 0 & !sqlite3_clear_bindings(this.stmt_) == 100 & !sqlite3_clear_bindings(this.stmt_) == 101 | !sqlite3_reset(this.stmt_) == 0 & !sqlite3_reset(this.stmt_) == 100 & !sqlite3_reset(this.stmt_) == 101
  call sqlite3_clear_bindings(this.stmt_) IF sqlite3_reset(this.stmt_) == 0 | sqlite3_reset(this.stmt_) == 100 | sqlite3_reset(this.stmt_) == 101
fn cyclus::SqlStatement::Step
  call sqlite3_step(this.stmt_) IF T
  ret return(true) IF sqlite3_step(this.stmt_) == 100
  call sqlite3_errmsg(this.db_) IF !sqlite3_step(this.stmt_) == 0 & !sqlite3_step(this.stmt_) == 100 & !sqlite3_step(this.stmt_) == 101
  throw cyclus::IOError() IF !sqlite3_step(this.stmt_) == 0 & !sqlite3_step(this.stmt_) == 100 & !sqlite3_step(this.stmt_) == 101
fn cyclus::SqlStatement::GetInt
  call sqlite3_column_int(this.stmt_, $0) IF T
  ret return(sqlite3_column_int(this.stmt_,$0)) IF T
fn cyclus::SqlStatement::GetDouble
  call sqlite3_column_double(this.stmt_, $0) IF T
  ret return(sqlite3_column_double(this.stmt_,$0)) IF T
fn cyclus::SqlStatement::GetText
  call sqlite3_column_text(this.stmt_, $0) IF T
  call sqlite3_column_bytes(this.stmt_, $0) IF $1
  ret return(sqlite3_column_text(this.stmt_,$0)) IF T
fn cyclus::SqlStatement::BindInt
  call sqlite3_bind_int(this.stmt_, $0, $1) IF T
  call sqlite3_errmsg(this.db_) IF !sqlite3_bind_int(this.stmt_,$0,$1) == 0 & !sqlite3_bind_int(this.stmt_,$0,$1) == 100 & !sqlite3_bind_int(this.stmt_,$0,$1) == 101
  throw cyclus::IOError() IF !sqlite3_bind_int(this.stmt_,$0,$1) == 0 & !sqlite3_bind_int(this.stmt_,$0,$1) == 100 & !sqlite3_bind_int(this.stmt_,$0,$1) == 101
fn cyclus::SqlStatement::BindDouble
  call sqlite3_bind_double(this.stmt_, $0, $1) IF T
  call sqlite3_errmsg(this.db_) IF !sqlite3_bind_double(this.stmt_,$0,$1) == 0 & !sqlite3_bind_double(this.stmt_,$0,$1) == 100 & !sqlite3_bind_double(this.stmt_,$0,$1) == 101
  throw cyclus::IOError() IF !sqlite3_bind_double(this.stmt_,$0,$1) == 0 & !sqlite3_bind_double(this.stmt_,$0,$1) == 100 & !sqlite3_bind_double(this.stmt_,$0,$1) == 101
fn cyclus::SqlStatement::BindText
  call sqlite3_bind_text(this.stmt_, $0, $1, -1, -1) IF T
  call sqlite3_errmsg(this.db_) IF !sqlite3_bind_text(this.stmt_,$0,$1,-1,-1) == 0 & !sqlite3_bind_text(this.stmt_,$0,$1,-1,-1) == 100 & !sqlite3_bind_text(this.stmt_,$0,$1,-1,-1) == 101
  throw cyclus::IOError() IF !sqlite3_bind_text(this.stmt_,$0,$1,-1,-1) == 0 & !sqlite3_bind_text(this.stmt_,$0,$1,-1,-1) == 100 & !sqlite3_bind_text(this.stmt_,$0,$1,-1,-1) == 101
fn cyclus::SqlStatement::BindBlob
  call sqlite3_bind_blob(this.stmt_, $0, $1, $2, -1) IF T
  call sqlite3_errmsg(this.db_) IF !sqlite3_bind_blob(this.stmt_,$0,$1,$2,-1) == 0 & !sqlite3_bind_blob(this.stmt_,$0,$1,$2,-1) == 100 & !sqlite3_bind_blob(this.stmt_,$0,$1,$2,-1) == 101
  throw cyclus::IOError() IF !sqlite3_bind_blob(this.stmt_,$0,$1,$2,-1) == 0 & !sqlite3_bind_blob(this.stmt_,$0,$1,$2,-1) == 100 & !sqlite3_bind_blob(this.stmt_,$0,$1,$2,-1) == 101
fn cyclus::SqlStatement::SqlStatement
  set this.db_($0) IF T
  set this.zSql_($1) IF T
  set this.stmt_(NULL) IF T
  call sqlite3_prepare_v2($0, $1, -1, NULL, NULL) IF T
  call sqlite3_errmsg($0) IF !sqlite3_prepare_v2($0,$1,-1,NULL,NULL) == 0 & !sqlite3_prepare_v2($0,$1,-1,NULL,NULL) == 100 & !sqlite3_prepare_v2($0,$1,-1,NULL,NULL) == 101
  throw cyclus::IOError() IF !sqlite3_prepare_v2($0,$1,-1,NULL,NULL) == 0 & !sqlite3_prepare_v2($0,$1,-1,NULL,NULL) == 100 & !sqlite3_prepare_v2($0,$1,-1,NULL,NULL) == 101
fn cyclus::SqlStatement::Must
  call sqlite3_errmsg(this.db_) IF !$0 == 0 & !$0 == 100 & !$0 == 101
  throw cyclus::IOError() IF !$0 == 0 & !$0 == 100 & !$0 == 101
fn cyclus::SqliteDb::SqliteDb
  default 1 = false
  set this.db_(NULL) IF T
  set this.isOpen_(false) IF T
  set this.path_($0) IF T
  set this.overwrite_(false) IF T
  set this.readonly_($1) IF T
fn cyclus::SqliteDb::~SqliteDb
fn cyclus::SqliteDb::Overwrite
  set this.overwrite_(true) IF T
fn cyclus::SqliteDb::close
  call sqlite3_close(this.db_) IF this.isOpen_
  set this.isOpen_(false) IF sqlite3_close(this.db_) == 0 & this.isOpen_
fn cyclus::SqliteDb::open
  call sqlite3_open_v2(this.path_, this.db_, 1, NULL) IF !this.isOpen_ & this.readonly_
  set this.isOpen_(true) IF sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ & this.readonly_
  call sqlite3_open(this.path_, this.db_) IF !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !this.isOpen_ & !this.readonly_
  call sqlite3_close(this.db_) IF !sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ & !this.readonly_
  throw cyclus::IOError() IF !sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ & !this.readonly_
fn cyclus::SqliteDb::Prepare
  call sqlite3_open_v2(this.path_, this.db_, 1, NULL) IF !this.isOpen_ & this.readonly_
  set this.isOpen_(true) IF sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ & this.readonly_
  call sqlite3_open(this.path_, this.db_) IF !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !this.isOpen_ & !this.readonly_
  ret return(new SqlStatement{this.db_,$0}) IF sqlite3_open(this.path_,this.db_) == 0 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & this.readonly_ | this.isOpen_
  call sqlite3_close(this.db_) IF !sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ & !this.readonly_
  throw cyclus::IOError() IF !sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ & !this.readonly_
fn cyclus::SqliteDb::Execute
  call sqlite3_open_v2(this.path_, this.db_, 1, NULL) IF !this.isOpen_ & this.readonly_
  set this.isOpen_(true) IF sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ & this.readonly_
  call sqlite3_open(this.path_, this.db_) IF !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !this.isOpen_ & !this.readonly_
  call sqlite3_prepare_v2(this.db_, $0, -1, <uninit>, NULL) IF sqlite3_open(this.path_,this.db_) == 0 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & this.readonly_ | this.isOpen_
  call sqlite3_errmsg(this.db_) IF !sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.isOpen_ | !sqlite3_step(<uninit>') == 0 & !sqlite3_step(<uninit>') == 100 & !sqlite3_step(<uninit>') == 101 & this.isOpen_ | sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 | sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_step(<uninit>') == 0 & !sqlite3_step(<uninit>') == 100 & !sqlite3_step(<uninit>') == 101 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.readonly_ | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !sqlite3_step(<uninit>') == 0 & !sqlite3_step(<uninit>') == 100 & !sqlite3_step(<uninit>') == 101 & this.readonly_
  throw cyclus::IOError() IF !sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ & !this.readonly_ | !sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 | !sqlite3_step(<uninit>') == 0 & !sqlite3_step(<uninit>') == 100 & !sqlite3_step(<uninit>') == 101
  call sqlite3_step(<uninit>') IF sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.readonly_ | sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.isOpen_
  call sqlite3_finalize(<uninit>') IF sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 | sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 100 | sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 & this.readonly_ | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 100 & this.readonly_ | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 & this.readonly_ | sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 & this.isOpen_ | sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 100 & this.isOpen_ | sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 & this.isOpen_
  call sqlite3_close(this.db_) IF !sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ & !this.readonly_
fn cyclus::SqliteDb::Query
  call sqlite3_open_v2(this.path_, this.db_, 1, NULL) IF !this.isOpen_ & this.readonly_
  set this.isOpen_(true) IF sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ & this.readonly_
  call sqlite3_open(this.path_, this.db_) IF !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !this.isOpen_ & !this.readonly_
  call sqlite3_prepare_v2(this.db_, $0, -1, <uninit>, NULL) IF sqlite3_open(this.path_,this.db_) == 0 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & this.readonly_ | this.isOpen_
  call sqlite3_errmsg(this.db_) IF !sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.isOpen_ | ANY(while: !sqlite3_step(<uninit>') == 100) & !sqlite3_step(<uninit>') == 0 & !sqlite3_step(<uninit>') == 101 & this.isOpen_ | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_step(<uninit>') == 0 & !sqlite3_step(<uninit>') == 101 | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !sqlite3_step(<uninit>') == 0 & !sqlite3_step(<uninit>') == 101 & this.readonly_ | sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.readonly_
  throw cyclus::IOError() IF !sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ & !this.readonly_ | !sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 | ANY(while: !sqlite3_step(<uninit>') == 100) & !sqlite3_step(<uninit>') == 0 & !sqlite3_step(<uninit>') == 101
  call sqlite3_column_count(<uninit>') IF sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.readonly_ | sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.isOpen_
  [for while] call sqlite3_step(<uninit>') IF sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.readonly_ | sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & this.isOpen_
  call sqlite3_finalize(<uninit>') IF ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 & this.readonly_ | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 & this.readonly_ | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 & this.isOpen_ | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 & this.isOpen_
  ret return(~) IF ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 & this.readonly_ | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 & this.readonly_ | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 0 & this.isOpen_ | ANY(while: !sqlite3_step(<uninit>') == 100) & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 101 & this.isOpen_
  [for while] [for range(sqlite3_column_count(<uninit>'))] call sqlite3_column_text(<uninit>', idx(range(sqlite3_column_count(<uninit>')))) IF sqlite3_open(this.path_,this.db_) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 100 | sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 100 & this.readonly_ | sqlite3_prepare_v2(this.db_,$0,-1,<uninit>,NULL) == 0 & sqlite3_step(<uninit>') == 100 & this.isOpen_
  call sqlite3_close(this.db_) IF !sqlite3_open(this.path_,this.db_) == 0 & !sqlite3_open_v2(this.path_,this.db_,1,NULL) == 0 & !this.isOpen_ | !sqlite3_open(this.path_,this.db_) == 0 & !this.isOpen_ & !this.readonly_
  leave !sqlite3_step(<uninit>') == 100
