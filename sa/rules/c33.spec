fn cyclus::AgentSpec::AgentSpec | std::basic_string<char>; std::basic_string<char>; std::basic_string<char>; std::basic_string<char>
  set this.path_($0) IF T
  set this.lib_($1) IF !empty($1)
  set this.agent_($2) IF T
  set this.alias_($3) IF !empty($3)
  set this.lib_($2) IF empty($1)
  set this.alias_($2) IF empty($3)
fn cyclus::AgentSpec::AgentSpec | cyclus::InfileTree *
  set this.agent_($0.GetString("name")) IF T
  set this.lib_(cyclus::OptionalQuery($0,"lib",$0.GetString("name"),of(std::basic_string<char>))) IF T
  set this.path_(cyclus::OptionalQuery($0,"path","",of(std::basic_string<char>))) IF T
  set this.alias_(cyclus::OptionalQuery($0,"alias",$0.GetString("name"),of(std::basic_string<char>))) IF T
fn cyclus::AgentSpec::AgentSpec | std::basic_string<char>
  throw cyclus::ValueError() IF !size(boost::algorithm::split_copy($0,boost::algorithm::is_any_of(":"))) == 3
  set this.path_(boost::algorithm::split_copy($0,boost::algorithm::is_any_of(":"))[0]) IF T
  set this.lib_(boost::algorithm::split_copy($0,boost::algorithm::is_any_of(":"))[1]) IF T
  set this.agent_(boost::algorithm::split_copy($0,boost::algorithm::is_any_of(":"))[2]) IF T
  set this.alias_(boost::algorithm::split_copy($0,boost::algorithm::is_any_of(":"))[2]) IF T
fn cyclus::AgentSpec::Sanitize
  ret return(boost::algorithm::replace_all_copy(boost::algorithm::replace_all_copy(boost::algorithm::replace_all_copy(boost::algorithm::replace_all_copy(this.path_ ++ ":" ++ this.lib_ ++ ":" ++ this.agent_,"-","_"),".","_"),"/","_"),":","_")) IF T
fn cyclus::AgentSpec::LibPath
  ret return((path{this.path_} / path{"lib" ++ this.lib_ ++ ".so"}).string()) IF T
fn cyclus::AgentSpec::str
  ret return(this.path_ ++ ":" ++ this.lib_ ++ ":" ++ this.agent_) IF T
fn cyclus::AgentSpec::AgentSpec | 
  set this.path_("") IF T
  set this.lib_("") IF T
  set this.agent_("") IF T
  set this.alias_("") IF T
fn cyclus::AgentSpec::path
  ret return(this.path_) IF T
fn cyclus::AgentSpec::lib
  ret return(this.lib_) IF T
fn cyclus::AgentSpec::agent
  ret return(this.agent_) IF T
fn cyclus::AgentSpec::alias
  ret return(this.alias_) IF T
fn cyclus::DynamicModule::Make
  ret return(cyclus::DynamicModule::man_ctors_[$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_]($0)) IF has(cyclus::DynamicModule::man_ctors_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_)
  put cyclus::DynamicModule::modules_.put($1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_, new DynamicModule{$1}) IF !has(cyclus::DynamicModule::man_ctors_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) & !has(cyclus::DynamicModule::modules_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_)
  call cyclus::MakePyAgent($1.lib_, $1.agent_, $0) IF boost::algorithm::starts_with(cyclus::DynamicModule::modules_[$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_].path_,"<py>") & !has(cyclus::DynamicModule::man_ctors_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) & has(cyclus::DynamicModule::modules_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) | boost::algorithm::starts_with(new DynamicModule{$1}.path_,"<py>") & !has(cyclus::DynamicModule::man_ctors_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) & !has(cyclus::DynamicModule::modules_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_)
  ret return(cyclus::MakePyAgent($1.lib_,$1.agent_,$0)) IF boost::algorithm::starts_with(cyclus::DynamicModule::modules_[$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_].path_,"<py>") & !has(cyclus::DynamicModule::man_ctors_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) & has(cyclus::DynamicModule::modules_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) | boost::algorithm::starts_with(new DynamicModule{$1}.path_,"<py>") & !has(cyclus::DynamicModule::man_ctors_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) & !has(cyclus::DynamicModule::modules_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_)
  ret return(phi{cyclus::DynamicModule::modules_[$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_].ctor_|new DynamicModule{$1}.ctor_}($0)) IF !boost::algorithm::starts_with(cyclus::DynamicModule::modules_[$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_].path_,"<py>") & !has(cyclus::DynamicModule::man_ctors_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) & has(cyclus::DynamicModule::modules_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) | !boost::algorithm::starts_with(new DynamicModule{$1}.path_,"<py>") & !has(cyclus::DynamicModule::man_ctors_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_) & !has(cyclus::DynamicModule::modules_,$1.path_ ++ ":" ++ $1.lib_ ++ ":" ++ $1.agent_)
fn cyclus::DynamicModule::Exists
  ret return(true) IF T
fn cyclus::DynamicModule::CloseAll
  [for cyclus::DynamicModule::modules_] call dlclose(elem(cyclus::DynamicModule::modules_).second.module_library_) IF elem(cyclus::DynamicModule::modules_).second.module_library_
  [for cyclus::DynamicModule::modules_] throw cyclus::IOError() IF !dlclose(elem(cyclus::DynamicModule::modules_).second.module_library_) == 0 & elem(cyclus::DynamicModule::modules_).second.module_library_
  [for cyclus::DynamicModule::modules_] delete delete(elem(cyclus::DynamicModule::modules_).second) IF dlclose(elem(cyclus::DynamicModule::modules_).second.module_library_) == 0 & elem(cyclus::DynamicModule::modules_).second | elem(cyclus::DynamicModule::modules_).second & !elem(cyclus::DynamicModule::modules_).second.module_library_
  del cyclus::DynamicModule::modules_.clear() IF T
  del cyclus::DynamicModule::man_ctors_.clear() IF T
  call cyclus::ClearPyAgentRefs() IF T
fn cyclus::DynamicModule::IsPyAgent
  ret return(true) IF boost::algorithm::starts_with(cyclus::DynamicModule::modules_[$0.path_ ++ ":" ++ $0.lib_ ++ ":" ++ $0.agent_].path_,"<py>")
fn cyclus::DynamicModule::DynamicModule | cyclus::AgentSpec
  set this.path_("") IF T
  set this.ctor_name_("") IF T
  set this.module_library_(NULL) IF T
  set this.ctor_(NULL) IF T
  call cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(), $0.lib_) IF T
  set this.path_(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_)) IF T
  set this.ctor_name_("Construct" ++ $0.agent_) IF !boost::algorithm::starts_with(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),"<py>")
  call dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_), 2) IF !boost::algorithm::starts_with(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),"<py>")
  set this.module_library_(dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),2)) IF !boost::algorithm::starts_with(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),"<py>")
  call dlsym(dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),2), "Construct" ++ $0.agent_) IF !boost::algorithm::starts_with(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),"<py>") & dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),2)
  set this.ctor_(dlsym(dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),2),"Construct" ++ $0.agent_)) IF !boost::algorithm::starts_with(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),"<py>")
  del "Construct" ++ $0.agent_.erase(0, 9) IF !boost::algorithm::starts_with(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),"<py>") & dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),2) & !dlsym(dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),2),"Construct" ++ $0.agent_)
  throw cyclus::IOError() IF !boost::algorithm::starts_with(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),"<py>") & !dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),2) | !boost::algorithm::starts_with(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),"<py>") & !dlsym(dlopen(cyclus::Env::FindModule((path{$0.path_} / path{"lib" ++ $0.lib_ ++ ".so"}).string(),$0.lib_),2),"Construct" ++ $0.agent_)
fn cyclus::DynamicModule::ConstructInstance
  ret return(this.ctor_($0)) IF T
fn cyclus::DynamicModule::path
  ret return(this.path_) IF T
fn cyclus::DynamicModule::Closer::~Closer
  call cyclus::DynamicModule::CloseAll() IF T
fn cyclus::DynamicModule::DynamicModule | 
  set this.path_("") IF T
  set this.ctor_name_("") IF T
fn cyclus::DynamicModule::OpenLibrary
  call dlopen(this.path_, 2) IF T
  set this.module_library_(dlopen(this.path_,2)) IF T
  throw cyclus::IOError() IF !dlopen(this.path_,2)
fn cyclus::DynamicModule::SetConstructor
  call dlsym(this.module_library_, this.ctor_name_) IF T
  set this.ctor_(dlsym(this.module_library_,this.ctor_name_)) IF T
  del this.ctor_name_.erase(0, 9) IF !dlsym(this.module_library_,this.ctor_name_)
  throw cyclus::IOError() IF !dlsym(this.module_library_,this.ctor_name_)
fn cyclus::DynamicModule::CloseLibrary
  call dlclose(this.module_library_) IF this.module_library_
  throw cyclus::IOError() IF !dlclose(this.module_library_) == 0 & this.module_library_
fn cyclus::Env::PathBase
  stop: Env::(Get.*Path|nuc_data)
  ret return($0.substr(0,$0.rfind("/"))) IF T
fn cyclus::Env::GetEnv
  stop: Env::(Get.*Path|nuc_data)
  ret return("") IF !getenv($0)
  ret return(getenv($0)) IF getenv($0)
fn cyclus::Env::EnvDelimiter
  stop: Env::(Get.*Path|nuc_data)
  ret return(":") IF T
fn cyclus::Env::PathDelimiter
  stop: Env::(Get.*Path|nuc_data)
  ret return("/") IF T
fn cyclus::Env::cyclus_path
  stop: Env::(Get.*Path|nuc_data)
  call cyclus::Env::GetInstallPath() IF T
  add boost::algorithm::split_copy("",boost::algorithm::is_any_of(":")).add(cyclus::Env::GetInstallPath() ++ "/lib/cyclus") IF !getenv("CYCLUS_PATH")
  add boost::algorithm::split_copy(getenv("CYCLUS_PATH"),boost::algorithm::is_any_of(":")).add(cyclus::Env::GetInstallPath() ++ "/lib/cyclus") IF getenv("CYCLUS_PATH")
  call cyclus::Env::GetBuildPath() IF T
  add boost::algorithm::split_copy("",boost::algorithm::is_any_of(":"))'.add(cyclus::Env::GetBuildPath() ++ "/lib/cyclus") IF !getenv("CYCLUS_PATH")
  add boost::algorithm::split_copy(getenv("CYCLUS_PATH"),boost::algorithm::is_any_of(":"))'.add(cyclus::Env::GetBuildPath() ++ "/lib/cyclus") IF getenv("CYCLUS_PATH")
  ret return(boost::algorithm::split_copy("",boost::algorithm::is_any_of(":"))') IF !getenv("CYCLUS_PATH")
  ret return(boost::algorithm::split_copy(getenv("CYCLUS_PATH"),boost::algorithm::is_any_of(":"))') IF getenv("CYCLUS_PATH")
fn cyclus::Env::allow_milps
  stop: Env::(Get.*Path|nuc_data)
  ret return(true) IF !empty(getenv("ALLOW_MILPS")) & !getenv("ALLOW_MILPS") == "0" & !getenv("ALLOW_MILPS") == "f" & !getenv("ALLOW_MILPS") == "false" | !getenv("ALLOW_MILPS")
  call std::transform(getenv("ALLOW_MILPS").begin(), getenv("ALLOW_MILPS").end(), getenv("ALLOW_MILPS").begin(), fn{T: call tolower(%1) | T:tolower(%1)}) IF getenv("ALLOW_MILPS")
fn cyclus::Env::SplitPath | const std::basic_string<char> &; char; std::vector<std::basic_string<char>> &
  stop: Env::(Get.*Path|nuc_data)
  [for while] add $2.add(~') IF std::getline(~,~,~)
  carry fold(while; ""; ~')
  leave !std::getline(~,~,~)
fn cyclus::Env::SplitPath | const std::basic_string<char> &; char
  stop: Env::(Get.*Path|nuc_data)
  [for while] add @vector<basic_string<char>>.add(~') IF std::getline(~,~,$1)
  ret return(filled(while; @vector<basic_string<char>>)) IF T
  carry fold(while; ""; ~')
  leave !std::getline(~,~,$1)
fn cyclus::Env::SetNucDataPath | 
  stop: Env::(Get.*Path|nuc_data)
  call cyclus::Env::nuc_data() IF T
fn cyclus::Env::SetNucDataPath | std::basic_string<char>
  stop: Env::(Get.*Path|nuc_data)
  throw cyclus::IOError() IF !boost::filesystem::exists($0)
fn cyclus::DiscoverArchetypes
  stop: Discover
  [for while] add @set<basic_string<char>>.add(basic_string{$0,($0.find("Construct",~)+size("Construct")),(-$0.find("Construct",~)+$0.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",($0.find("Construct",~)+size("Construct")))-size("Construct"))}) IF !$0.find("Construct",~) == std::basic_string<char>::npos & !($0.find("Construct",~)-$0.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",($0.find("Construct",~)+size("Construct")))+size("Construct")) == 0 & !has(@set<basic_string<char>>,basic_string{$0,($0.find("Construct",~)+size("Construct")),(-$0.find("Construct",~)+$0.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",($0.find("Construct",~)+size("Construct")))-size("Construct"))}) & std::basic_string<char>::npos == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz".find($0[($0.find("Construct",~)-1)])
  ret return(fold(while; @set<basic_string<char>>; !($0.find("Construct",~)-$0.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",($0.find("Construct",~)+size("Construct")))+size("Construct")) == 0 & std::basic_string<char>::npos == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz".find($0[($0.find("Construct",~)-1)]):~' ; !std::basic_string<char>::npos == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz".find($0[($0.find("Construct",~)-1)]) | ($0.find("Construct",~)-$0.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",($0.find("Construct",~)+size("Construct")))+size("Construct")) == 0:~)) IF T
  carry fold(while; 0; !($0.find("Construct",~)-$0.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",($0.find("Construct",~)+size("Construct")))+size("Construct")) == 0 & std::basic_string<char>::npos == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz".find($0[($0.find("Construct",~)-1)]):$0.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",($0.find("Construct",~)+size("Construct"))) ; !std::basic_string<char>::npos == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz".find($0[($0.find("Construct",~)-1)]) | ($0.find("Construct",~)-$0.find_first_not_of("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz",($0.find("Construct",~)+size("Construct")))+size("Construct")) == 0:($0.find("Construct",~)+size("Construct")))
  leave $0.find("Construct",~) == std::basic_string<char>::npos
fn cyclus::DiscoverSpecs
  stop: DiscoverSpecs|DiscoverArchetypes|Env::
  call cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string()) IF T
  call cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}}) IF T
  [for cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}})] call cyclus::DynamicModule::Exists(AgentSpec{$0 ++ ":" ++ $1 ++ ":" ++ elem(cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}}))}) IF T
  [for cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}})] add @set<basic_string<char>>.add($0 ++ ":" ++ $1 ++ ":" ++ elem(cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}}))) IF cyclus::DynamicModule::Exists(AgentSpec{$0 ++ ":" ++ $1 ++ ":" ++ elem(cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}}))}) & !has(@set<basic_string<char>>,$0 ++ ":" ++ $1 ++ ":" ++ elem(cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}})))
  ret return(fold(cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}}); @set<basic_string<char>>; !cyclus::DynamicModule::Exists(AgentSpec{$0 ++ ":" ++ $1 ++ ":" ++ elem(cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}}))}):~ ; cyclus::DynamicModule::Exists(AgentSpec{$0 ++ ":" ++ $1 ++ ":" ++ elem(cyclus::DiscoverArchetypes(vector{istreambuf_iterator{cyclus::Env::FindModule((path{$0} / path{"lib" ++ $1 ++ ".so"}).string())},istreambuf_iterator{}}))}):~')) IF T
fn cyclus::DiscoverSpecsInDir
  stop: DiscoverSpecs|DiscoverArchetypes|Env::
  [for while] call cyclus::DiscoverSpecs(~.path().parent_path().string().substr((size($0)+1),std::basic_string<char>::npos), ~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3))) IF !(size($0)-size(~.path().parent_path().string())) >= 0 & !@boost::filesystem::recursive_directory_iterator == ~ & boost::algorithm::ends_with(~.path().string(),".so") & !boost::filesystem::is_directory(~.path(),@boost::system::error_code) & boost::filesystem::is_regular_file(~.path(),@boost::system::error_code)
  [for while] call cyclus::DiscoverSpecs("", ~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3))) IF (size($0)-size(~.path().parent_path().string())) >= 0 & !@boost::filesystem::recursive_directory_iterator == ~ & boost::algorithm::ends_with(~.path().string(),".so") & !boost::filesystem::is_directory(~.path(),@boost::system::error_code) & boost::filesystem::is_regular_file(~.path(),@boost::system::error_code)
  [for while] [for phi{cyclus::DiscoverSpecs("",~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3)))|cyclus::DiscoverSpecs(~.path().parent_path().string().substr((size($0)+1),std::basic_string<char>::npos),~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3)))|~}] add @set<basic_string<char>>.add(elem(phi{cyclus::DiscoverSpecs("",~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3)))|cyclus::DiscoverSpecs(~.path().parent_path().string().substr((size($0)+1),std::basic_string<char>::npos),~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3)))|~})) IF !@boost::filesystem::recursive_directory_iterator == ~ & boost::algorithm::ends_with(~.path().string(),".so") & !boost::filesystem::is_directory(~.path(),@boost::system::error_code) & boost::filesystem::is_regular_file(~.path(),@boost::system::error_code) & !has(@set<basic_string<char>>,elem(phi{cyclus::DiscoverSpecs("",~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3)))|cyclus::DiscoverSpecs(~.path().parent_path().string().substr((size($0)+1),std::basic_string<char>::npos),~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3)))|~}))
  ret return(fold(while; @set<basic_string<char>>; !boost::algorithm::ends_with(~.path().string(),".so") | !boost::filesystem::is_regular_file(~.path(),@boost::system::error_code) | boost::filesystem::is_directory(~.path(),@boost::system::error_code):~ ; boost::algorithm::ends_with(~.path().string(),".so") & !boost::filesystem::is_directory(~.path(),@boost::system::error_code) & boost::filesystem::is_regular_file(~.path(),@boost::system::error_code):fold(phi{cyclus::DiscoverSpecs("",~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3)))|cyclus::DiscoverSpecs(~.path().parent_path().string().substr((size($0)+1),std::basic_string<char>::npos),~.path().filename().string().substr(3,(~.path().filename().string().rfind(".")-3)))|~}; ~; ~'))) IF T
  leave @boost::filesystem::recursive_directory_iterator == ~
fn cyclus::DiscoverSpecsInCyclusPath
  stop: DiscoverSpecs|DiscoverArchetypes|Env::
  call cyclus::Env::cyclus_path() IF T
  [for cyclus::Env::cyclus_path()] call cyclus::DiscoverSpecsInDir(".") IF empty(elem(cyclus::Env::cyclus_path()))
  [for cyclus::Env::cyclus_path()] call cyclus::DiscoverSpecsInDir(elem(cyclus::Env::cyclus_path())) IF !empty(elem(cyclus::Env::cyclus_path()))
  [for cyclus::Env::cyclus_path()] [for phi{cyclus::DiscoverSpecsInDir(".")|cyclus::DiscoverSpecsInDir(elem(cyclus::Env::cyclus_path()))}] add @set<basic_string<char>>.add(elem(phi{cyclus::DiscoverSpecsInDir(".")|cyclus::DiscoverSpecsInDir(elem(cyclus::Env::cyclus_path()))})) IF !has(@set<basic_string<char>>,elem(phi{cyclus::DiscoverSpecsInDir(".")|cyclus::DiscoverSpecsInDir(elem(cyclus::Env::cyclus_path()))}))
  ret return(fold(cyclus::Env::cyclus_path(); @set<basic_string<char>>; fold(phi{cyclus::DiscoverSpecsInDir(".")|cyclus::DiscoverSpecsInDir(elem(cyclus::Env::cyclus_path()))}; ~; ~'))) IF T
fn cyclus::Env::GetInstallPath
  stop: Env::
  ret return(cyclus::Env::instdir_) IF !empty(cyclus::Env::instdir_)
  set cyclus::Env::instdir_(take("/opt/cyclus/install",strlen("/opt/cyclus/install"))) IF (size("/opt/cyclus/install")-strlen("/opt/cyclus/install")) >= 1 & !boost::filesystem::exists(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) & empty(cyclus::Env::instdir_) & unique_ptr{popen("which cyclus","r"),pclose} | (size("/opt/cyclus/install")-strlen("/opt/cyclus/install")) >= 1 & empty(cyclus::Env::instdir_) & empty(fold(while; ""; ~ ++ @array<char, 4096>.data())) & unique_ptr{popen("which cyclus","r"),pclose}
  set cyclus::Env::instdir_(take(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string(),strlen(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()))) IF (size(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string())-strlen(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string())) >= 1 & boost::filesystem::exists(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) & empty(cyclus::Env::instdir_) & !empty(fold(while; ""; ~ ++ @array<char, 4096>.data())) & unique_ptr{popen("which cyclus","r"),pclose}
  set cyclus::Env::instdir_("/opt/cyclus/install") IF !(size("/opt/cyclus/install")-strlen("/opt/cyclus/install")) >= 1 & !boost::filesystem::exists(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) & empty(cyclus::Env::instdir_) & unique_ptr{popen("which cyclus","r"),pclose} | !(size("/opt/cyclus/install")-strlen("/opt/cyclus/install")) >= 1 & empty(cyclus::Env::instdir_) & empty(fold(while; ""; ~ ++ @array<char, 4096>.data())) & unique_ptr{popen("which cyclus","r"),pclose}
  set cyclus::Env::instdir_(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) IF !(size(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string())-strlen(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string())) >= 1 & boost::filesystem::exists(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) & empty(cyclus::Env::instdir_) & !empty(fold(while; ""; ~ ++ @array<char, 4096>.data())) & unique_ptr{popen("which cyclus","r"),pclose}
  ret return(take("/opt/cyclus/install",strlen("/opt/cyclus/install"))) IF (size("/opt/cyclus/install")-strlen("/opt/cyclus/install")) >= 1 & !boost::filesystem::exists(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) & empty(cyclus::Env::instdir_) & unique_ptr{popen("which cyclus","r"),pclose} | (size("/opt/cyclus/install")-strlen("/opt/cyclus/install")) >= 1 & empty(cyclus::Env::instdir_) & empty(fold(while; ""; ~ ++ @array<char, 4096>.data())) & unique_ptr{popen("which cyclus","r"),pclose}
  ret return(take(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string(),strlen(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()))) IF (size(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string())-strlen(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string())) >= 1 & boost::filesystem::exists(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) & empty(cyclus::Env::instdir_) & !empty(fold(while; ""; ~ ++ @array<char, 4096>.data())) & unique_ptr{popen("which cyclus","r"),pclose}
  ret return("/opt/cyclus/install") IF !(size("/opt/cyclus/install")-strlen("/opt/cyclus/install")) >= 1 & !boost::filesystem::exists(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) & empty(cyclus::Env::instdir_) & unique_ptr{popen("which cyclus","r"),pclose} | !(size("/opt/cyclus/install")-strlen("/opt/cyclus/install")) >= 1 & empty(cyclus::Env::instdir_) & empty(fold(while; ""; ~ ++ @array<char, 4096>.data())) & unique_ptr{popen("which cyclus","r"),pclose}
  ret return(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) IF !(size(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string())-strlen(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string())) >= 1 & boost::filesystem::exists(path{fold(while; ""; ~ ++ @array<char, 4096>.data())}.parent_path().parent_path().string()) & empty(cyclus::Env::instdir_) & !empty(fold(while; ""; ~ ++ @array<char, 4096>.data())) & unique_ptr{popen("which cyclus","r"),pclose}
  throw std::runtime_error() IF empty(cyclus::Env::instdir_) & !unique_ptr{popen("which cyclus","r"),pclose}
  leave !fgets(@array<char, 4096>.data(),size(@array<char, 4096>),unique_ptr{popen("which cyclus","r"),pclose})
fn cyclus::Env::GetBuildPath
  stop: Env::
  ret return(take("/repo/build",strlen("/repo/build"))) IF (size("/repo/build")-strlen("/repo/build")) >= 1
  ret return("/repo/build") IF !(size("/repo/build")-strlen("/repo/build")) >= 1
fn cyclus::Env::nuc_data
  stop: Env::
  call cyclus::Env::GetEnv("CYCLUS_NUC_DATA") IF T
  ret return(cyclus::Env::GetEnv("CYCLUS_NUC_DATA")) IF boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_NUC_DATA")) & !empty(cyclus::Env::GetEnv("CYCLUS_NUC_DATA"))
  * call cyclus::Env::GetInstallPath() IF !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_NUC_DATA")) | empty(cyclus::Env::GetEnv("CYCLUS_NUC_DATA"))
  ret return(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") IF !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_NUC_DATA")) & boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") | boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") & empty(cyclus::Env::GetEnv("CYCLUS_NUC_DATA"))
  * call cyclus::Env::GetBuildPath() IF !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_NUC_DATA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") | !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") & empty(cyclus::Env::GetEnv("CYCLUS_NUC_DATA"))
  ret return(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus_nuc_data.h5") IF boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus_nuc_data.h5") & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_NUC_DATA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") | boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus_nuc_data.h5") & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") & empty(cyclus::Env::GetEnv("CYCLUS_NUC_DATA"))
  throw cyclus::IOError() IF !boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus_nuc_data.h5") & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_NUC_DATA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") | !boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus_nuc_data.h5") & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus_nuc_data.h5") & empty(cyclus::Env::GetEnv("CYCLUS_NUC_DATA"))
fn cyclus::Env::rng_schema
  stop: Env::
  default 0 = false
  call cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA") IF T
  ret return(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) IF boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & !empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA"))
  * call cyclus::Env::GetInstallPath() IF !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) | empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA"))
  ret return(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") IF $0 & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") | $0 & boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") & empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA"))
  * call cyclus::Env::GetBuildPath() IF !$0 & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") | !$0 & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") & empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) | $0 & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") | $0 & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") & empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA"))
  ret return(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus-flat.rng.in") IF $0 & boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus-flat.rng.in") & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") | $0 & boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus-flat.rng.in") & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") & empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA"))
  throw cyclus::IOError() IF !$0 & !boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus.rng.in") & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") | !$0 & !boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus.rng.in") & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") & empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) | $0 & !boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus-flat.rng.in") & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") | $0 & !boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus-flat.rng.in") & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus-flat.rng.in") & empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA"))
  ret return(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") IF !$0 & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") | !$0 & boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") & empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA"))
  ret return(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus.rng.in") IF !$0 & boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus.rng.in") & !boost::filesystem::exists(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA")) & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") | !$0 & boost::filesystem::exists(cyclus::Env::GetBuildPath() ++ "/share/cyclus/cyclus.rng.in") & !boost::filesystem::exists(cyclus::Env::GetInstallPath() ++ "/share/cyclus/cyclus.rng.in") & empty(cyclus::Env::GetEnv("CYCLUS_RNG_SCHEMA"))
fn cyclus::Env::FindModule | std::basic_string<char>
  stop: Env::
  call cyclus::Env::FindModule($0, "") IF T
  ret return(cyclus::Env::FindModule($0,"")) IF T
fn cyclus::Env::FindModule | std::basic_string<char>; std::basic_string<char>
  stop: Env::
  call cyclus::Env::cyclus_path() IF T
  [for cyclus::Env::cyclus_path()] ret return((path{elem(cyclus::Env::cyclus_path())} / $0).string()) IF boost::filesystem::exists((path{elem(cyclus::Env::cyclus_path())} / $0),@boost::system::error_code)
  call cyclus::PyFindModule($1) IF !ANY(cyclus::Env::cyclus_path(): boost::filesystem::exists((path{elem(cyclus::Env::cyclus_path())} / $0),@boost::system::error_code)) & !empty($1)
  throw cyclus::IOError() IF !ANY(cyclus::Env::cyclus_path(): boost::filesystem::exists((path{elem(cyclus::Env::cyclus_path())} / $0),@boost::system::error_code)) & empty($1) | !ANY(cyclus::Env::cyclus_path(): boost::filesystem::exists((path{elem(cyclus::Env::cyclus_path())} / $0),@boost::system::error_code)) & empty(cyclus::PyFindModule($1))
  ret return(cyclus::PyFindModule($1)) IF !ANY(cyclus::Env::cyclus_path(): boost::filesystem::exists((path{elem(cyclus::Env::cyclus_path())} / $0),@boost::system::error_code)) & !empty($1) & !empty(cyclus::PyFindModule($1))
