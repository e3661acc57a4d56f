fn cyclus::cycsa::AllVars::AllVars
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.manager_(this) IF T
  set this.kind_("Facility") IF T
  set this.cycpp_shape_i_req(vector{}) IF T
  set this.cycpp_shape_i_dflt(vector{}) IF T
  set this.cycpp_shape_i_nuc(vector{}) IF T
  set this.cycpp_shape_i_int(vector{}) IF T
  set this.cycpp_shape_i_alias(vector{}) IF T
  set this.cycpp_shape_d_dflt(vector{}) IF T
  set this.cycpp_shape_d_req(vector{}) IF T
  set this.cycpp_shape_f_dflt(vector{}) IF T
  set this.cycpp_shape_b_dflt(vector{}) IF T
  set this.cycpp_shape_b_req(vector{}) IF T
  set this.s_dflt("") IF T
  set this.cycpp_shape_s_dflt(vector{}) IF T
  set this.s_req("") IF T
  set this.cycpp_shape_s_req(vector{}) IF T
  set this.blob_dflt(Blob{}) IF T
  set this.cycpp_shape_blob_dflt(vector{}) IF T
  set this.vs_req(vector{}) IF T
  set this.cycpp_shape_vs_req(vector{}) IF T
  set this.vi_dflt(vector{}) IF T
  set this.cycpp_shape_vi_dflt(vector{}) IF T
  set this.vn_dflt(vector{}) IF T
  set this.cycpp_shape_vn_dflt(vector{}) IF T
  set this.vd_shape(vector{}) IF T
  set this.cycpp_shape_vd_shape(vector{}) IF T
  set this.vi_shape(vector{}) IF T
  set this.cycpp_shape_vi_shape(vector{}) IF T
  set this.vd_alias(vector{}) IF T
  set this.cycpp_shape_vd_alias(vector{}) IF T
  set this.vv_req(vector{}) IF T
  set this.cycpp_shape_vv_req(vector{}) IF T
  set this.set_dflt(set{}) IF T
  set this.cycpp_shape_set_dflt(vector{}) IF T
  set this.set_req(set{}) IF T
  set this.cycpp_shape_set_req(vector{}) IF T
  set this.list_dflt(list{}) IF T
  set this.cycpp_shape_list_dflt(vector{}) IF T
  set this.list_req(list{}) IF T
  set this.cycpp_shape_list_req(vector{}) IF T
  set this.pair_dflt(pair{}) IF T
  set this.cycpp_shape_pair_dflt(vector{}) IF T
  set this.pair_req(pair{}) IF T
  set this.cycpp_shape_pair_req(vector{}) IF T
  set this.map_dflt(map{}) IF T
  set this.cycpp_shape_map_dflt(vector{}) IF T
  set this.map_req(map{}) IF T
  set this.cycpp_shape_map_req(vector{}) IF T
  set this.map_pair(map{}) IF T
  set this.cycpp_shape_map_pair(vector{}) IF T
  set this.map_vec(map{}) IF T
  set this.cycpp_shape_map_vec(vector{}) IF T
  set this.vs_int(vector{}) IF T
  set this.cycpp_shape_vs_int(vector{}) IF T
  set this.buf_cap(toolkit::ResBuf<Material>{}) IF T
  set this.cycpp_shape_buf_cap(vector{}) IF T
  set this.buf_prod(toolkit::ResBuf<Product>{}) IF T
  set this.cycpp_shape_buf_prod(vector{}) IF T
  set this.buf_res(toolkit::ResBuf<Resource>{}) IF T
  set this.cycpp_shape_buf_res(vector{}) IF T
fn cyclus::cycsa::AllVars::InitFrom | cyclus::cycsa::AllVars *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
  set this.cycpp_shape_i_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_nuc(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_int(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_alias(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_d_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_d_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_f_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_b_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_b_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_s_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_s_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_blob_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_vs_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vi_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vn_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vd_shape(vector{[3, -1],([3, -1]+2)}) IF T
  set this.cycpp_shape_vi_shape(vector{[4, -1],([4, -1]+2)}) IF T
  set this.cycpp_shape_vd_alias(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vv_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_set_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_set_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_list_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_list_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_pair_dflt(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_pair_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_dflt(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_pair(vector{[-1, -1, -1, -1, -1],([-1, -1, -1, -1, -1]+5)}) IF T
  set this.cycpp_shape_map_vec(vector{[-1, -1, -1, -1],([-1, -1, -1, -1]+4)}) IF T
  set this.cycpp_shape_vs_int(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_cap(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_prod(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_res(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.i_req($0.i_req) IF T
  set this.i_dflt($0.i_dflt) IF T
  set this.i_nuc($0.i_nuc) IF T
  set this.i_int($0.i_int) IF T
  set this.i_alias($0.i_alias) IF T
  set this.d_dflt($0.d_dflt) IF T
  set this.d_req($0.d_req) IF T
  set this.f_dflt($0.f_dflt) IF T
  set this.b_dflt($0.b_dflt) IF T
  set this.b_req($0.b_req) IF T
  set this.s_dflt($0.s_dflt) IF T
  set this.s_req($0.s_req) IF T
  set this.blob_dflt($0.blob_dflt) IF T
  set this.vs_req($0.vs_req) IF T
  set this.vi_dflt($0.vi_dflt) IF T
  set this.vn_dflt($0.vn_dflt) IF T
  set this.vd_shape($0.vd_shape) IF T
  set this.vi_shape($0.vi_shape) IF T
  set this.vd_alias($0.vd_alias) IF T
  set this.vv_req($0.vv_req) IF T
  set this.set_dflt($0.set_dflt) IF T
  set this.set_req($0.set_req) IF T
  set this.list_dflt($0.list_dflt) IF T
  set this.list_req($0.list_req) IF T
  set this.pair_dflt($0.pair_dflt) IF T
  set this.pair_req($0.pair_req) IF T
  set this.map_dflt($0.map_dflt) IF T
  set this.map_req($0.map_req) IF T
  set this.map_pair($0.map_pair) IF T
  set this.map_vec($0.map_vec) IF T
  set this.vs_int($0.vs_int) IF T
  call this.buf_cap.cyclus::toolkit::ResBuf::capacity($0.buf_cap.cap_) IF T
  call this.buf_prod.cyclus::toolkit::ResBuf::capacity($0.buf_prod.cap_) IF T
  call this.buf_res.cyclus::toolkit::ResBuf::capacity($0.buf_res.cap_) IF T
fn cyclus::cycsa::AllVars::InitFrom | cyclus::QueryableBackend *
  set this.cycpp_shape_i_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_nuc(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_int(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_alias(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_d_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_d_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_f_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_b_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_b_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_s_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_s_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_blob_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_vs_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vi_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vn_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vd_shape(vector{[3, -1],([3, -1]+2)}) IF T
  set this.cycpp_shape_vi_shape(vector{[4, -1],([4, -1]+2)}) IF T
  set this.cycpp_shape_vd_alias(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vv_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_set_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_set_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_list_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_list_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_pair_dflt(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_pair_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_dflt(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_pair(vector{[-1, -1, -1, -1, -1],([-1, -1, -1, -1, -1]+5)}) IF T
  set this.cycpp_shape_map_vec(vector{[-1, -1, -1, -1],([-1, -1, -1, -1]+4)}) IF T
  set this.cycpp_shape_vs_int(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_cap(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_prod(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_res(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.i_req($0.Query("Info",NULL).GetVal("i_req",of(int))) IF T
  set this.i_dflt($0.Query("Info",NULL).GetVal("i_dflt",of(int))) IF T
  set this.i_nuc($0.Query("Info",NULL).GetVal("i_nuc",of(int))) IF T
  set this.i_int($0.Query("Info",NULL).GetVal("i_int",of(int))) IF T
  set this.i_alias($0.Query("Info",NULL).GetVal("i_alias",of(int))) IF T
  set this.d_dflt($0.Query("Info",NULL).GetVal("d_dflt",of(double))) IF T
  set this.d_req($0.Query("Info",NULL).GetVal("d_req",of(double))) IF T
  set this.f_dflt($0.Query("Info",NULL).GetVal("f_dflt",of(float))) IF T
  set this.b_dflt($0.Query("Info",NULL).GetVal("b_dflt",of(bool))) IF T
  set this.b_req($0.Query("Info",NULL).GetVal("b_req",of(bool))) IF T
  set this.s_dflt($0.Query("Info",NULL).GetVal("s_dflt",of(std::basic_string<char>))) IF T
  set this.s_req($0.Query("Info",NULL).GetVal("s_req",of(std::basic_string<char>))) IF T
  set this.blob_dflt($0.Query("Info",NULL).GetVal("blob_dflt",of(cyclus::Blob))) IF T
  set this.vs_req($0.Query("Info",NULL).GetVal("vs_req",of(std::vector<std::basic_string<char>>))) IF T
  set this.vi_dflt($0.Query("Info",NULL).GetVal("vi_dflt",of(std::vector<int>))) IF T
  set this.vn_dflt($0.Query("Info",NULL).GetVal("vn_dflt",of(std::vector<int>))) IF T
  set this.vd_shape($0.Query("Info",NULL).GetVal("vd_shape",of(std::vector<double>))) IF T
  set this.vi_shape($0.Query("Info",NULL).GetVal("vi_shape",of(std::vector<int>))) IF T
  set this.vd_alias($0.Query("Info",NULL).GetVal("vd_alias",of(std::vector<double>))) IF T
  set this.vv_req($0.Query("Info",NULL).GetVal("vv_req",of(std::vector<std::vector<double>>))) IF T
  set this.set_dflt($0.Query("Info",NULL).GetVal("set_dflt",of(std::set<std::basic_string<char>>))) IF T
  set this.set_req($0.Query("Info",NULL).GetVal("set_req",of(std::set<int>))) IF T
  set this.list_dflt($0.Query("Info",NULL).GetVal("list_dflt",of(std::list<int>))) IF T
  set this.list_req($0.Query("Info",NULL).GetVal("list_req",of(std::list<std::basic_string<char>>))) IF T
  set this.pair_dflt($0.Query("Info",NULL).GetVal("pair_dflt",of(std::pair<int, int>))) IF T
  set this.pair_req($0.Query("Info",NULL).GetVal("pair_req",of(std::pair<std::basic_string<char>, double>))) IF T
  set this.map_dflt($0.Query("Info",NULL).GetVal("map_dflt",of(std::map<std::basic_string<char>, double>))) IF T
  set this.map_req($0.Query("Info",NULL).GetVal("map_req",of(std::map<std::basic_string<char>, double>))) IF T
  set this.map_pair($0.Query("Info",NULL).GetVal("map_pair",of(std::map<int, std::pair<int, double>>))) IF T
  set this.map_vec($0.Query("Info",NULL).GetVal("map_vec",of(std::map<std::basic_string<char>, std::vector<std::basic_string<char>>>))) IF T
  set this.vs_int($0.Query("Info",NULL).GetVal("vs_int",of(std::vector<std::basic_string<char>>))) IF T
  call this.buf_cap.cyclus::toolkit::ResBuf::capacity($0.Query("Info",NULL).GetVal("d_dflt",of(double))) IF T
  call this.buf_prod.cyclus::toolkit::ResBuf::capacity(1e+300) IF T
  call this.buf_res.cyclus::toolkit::ResBuf::capacity(1e+300) IF T
fn cyclus::cycsa::AllVars::InfileToDb
  set this.cycpp_shape_i_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_nuc(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_int(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_i_alias(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_d_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_d_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_f_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_b_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_b_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_s_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_s_req(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_blob_dflt(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_vs_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vi_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vn_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vd_shape(vector{[3, -1],([3, -1]+2)}) IF T
  set this.cycpp_shape_vi_shape(vector{[4, -1],([4, -1]+2)}) IF T
  set this.cycpp_shape_vd_alias(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_vv_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_set_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_set_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_list_dflt(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_list_req(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_pair_dflt(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_pair_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_dflt(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_req(vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  set this.cycpp_shape_map_pair(vector{[-1, -1, -1, -1, -1],([-1, -1, -1, -1, -1]+5)}) IF T
  set this.cycpp_shape_map_vec(vector{[-1, -1, -1, -1],([-1, -1, -1, -1]+4)}) IF T
  set this.cycpp_shape_vs_int(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_cap(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_prod(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.cycpp_shape_buf_res(vector{[-1, -1],([-1, -1]+2)}) IF T
  call cyclus::Query($0.SubTree("config/*"), "i_req", of(int)) IF T
  set this.i_req(cyclus::Query($0.SubTree("config/*"),"i_req",of(int))) IF T
  call cyclus::Query($0.SubTree("config/*"), "i_dflt", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("i_dflt"))
  set this.i_dflt(cyclus::Query($0.SubTree("config/*"),"i_dflt",of(int))) IF !empty($0.SubTree("config/*").current_node_.find("i_dflt"))
  set this.i_dflt(7) IF empty($0.SubTree("config/*").current_node_.find("i_dflt"))
  set this.i_nuc(pyne::nucname::id($0.SubTree("config/*").GetString("i_nuc",0))) IF !empty($0.SubTree("config/*").current_node_.find("i_nuc"))
  set this.i_nuc(pyne::nucname::id(922350000)) IF empty($0.SubTree("config/*").current_node_.find("i_nuc"))
  set this.i_int(3) IF T
  call cyclus::Query($0.SubTree("config/*"), "i_named", of(int)) IF T
  set this.i_alias(cyclus::Query($0.SubTree("config/*"),"i_named",of(int))) IF T
  call cyclus::Query($0.SubTree("config/*"), "d_dflt", of(double)) IF !empty($0.SubTree("config/*").current_node_.find("d_dflt"))
  set this.d_dflt(cyclus::Query($0.SubTree("config/*"),"d_dflt",of(double))) IF !empty($0.SubTree("config/*").current_node_.find("d_dflt"))
  set this.d_dflt(1.5) IF empty($0.SubTree("config/*").current_node_.find("d_dflt"))
  call cyclus::Query($0.SubTree("config/*"), "d_req", of(double)) IF T
  set this.d_req(cyclus::Query($0.SubTree("config/*"),"d_req",of(double))) IF T
  call cyclus::Query($0.SubTree("config/*"), "f_dflt", of(float)) IF !empty($0.SubTree("config/*").current_node_.find("f_dflt"))
  set this.f_dflt(cyclus::Query($0.SubTree("config/*"),"f_dflt",of(float))) IF !empty($0.SubTree("config/*").current_node_.find("f_dflt"))
  set this.f_dflt(1.5) IF empty($0.SubTree("config/*").current_node_.find("f_dflt"))
  set this.b_dflt(boost::lexical_cast($0.SubTree("config/*").GetString("b_dflt",0),of(bool))) IF !empty($0.SubTree("config/*").current_node_.find("b_dflt"))
  set this.b_dflt(true) IF empty($0.SubTree("config/*").current_node_.find("b_dflt"))
  set this.b_req(boost::lexical_cast($0.SubTree("config/*").GetString("b_req",0),of(bool))) IF T
  set this.s_dflt($0.SubTree("config/*").GetString("s_dflt",0)) IF !empty($0.SubTree("config/*").current_node_.find("s_dflt"))
  set this.s_dflt("x") IF empty($0.SubTree("config/*").current_node_.find("s_dflt"))
  set this.s_req($0.SubTree("config/*").GetString("s_req",0)) IF T
  set this.blob_dflt(Blob{"blob"}) IF T
  [for range(size($0.SubTree("config/*").SubTree("vs_req",0).current_node_.find("val")))] put @vector<basic_string<char>>.put(idx(range(size($0.SubTree("config/*").SubTree("vs_req",0).current_node_.find("val")))), $0.SubTree("config/*").SubTree("vs_req",0).GetString("val",idx(range(size($0.SubTree("config/*").SubTree("vs_req",0).current_node_.find("val")))))) IF T
  set this.vs_req(fold(range(size($0.SubTree("config/*").SubTree("vs_req",0).current_node_.find("val"))); take(@vector<basic_string<char>>,size($0.SubTree("config/*").SubTree("vs_req",0).current_node_.find("val"))); ~')) IF T
  [for range(size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val")))] call cyclus::Query($0.SubTree("config/*").SubTree("vi_dflt",0), "val", idx(range(size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val")))), of(int)) IF !empty($0.SubTree("config/*").current_node_.find("vi_dflt"))
  [for range(size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val")))] put @vector<int>.put(idx(range(size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val")))), cyclus::Query($0.SubTree("config/*").SubTree("vi_dflt",0),"val",idx(range(size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val")))),of(int))) IF !empty($0.SubTree("config/*").current_node_.find("vi_dflt"))
  set this.vi_dflt(fold(range(size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val"))); take(@vector<int>,size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val"))); ~')) IF !empty($0.SubTree("config/*").current_node_.find("vi_dflt"))
  put take(@vector<int>,2).put(0, 1) IF empty($0.SubTree("config/*").current_node_.find("vi_dflt"))
  put take(@vector<int>,2)'.put(1, 2) IF empty($0.SubTree("config/*").current_node_.find("vi_dflt"))
  set this.vi_dflt(take(@vector<int>,2)') IF empty($0.SubTree("config/*").current_node_.find("vi_dflt"))
  [for range(size($0.SubTree("config/*").SubTree("vn_dflt",0).current_node_.find("val")))] put @vector<int>.put(idx(range(size($0.SubTree("config/*").SubTree("vn_dflt",0).current_node_.find("val")))), pyne::nucname::id($0.SubTree("config/*").SubTree("vn_dflt",0).GetString("val",idx(range(size($0.SubTree("config/*").SubTree("vn_dflt",0).current_node_.find("val"))))))) IF !empty($0.SubTree("config/*").current_node_.find("vn_dflt"))
  set this.vn_dflt(fold(range(size($0.SubTree("config/*").SubTree("vn_dflt",0).current_node_.find("val"))); take(@vector<int>,size($0.SubTree("config/*").SubTree("vn_dflt",0).current_node_.find("val"))); ~')) IF !empty($0.SubTree("config/*").current_node_.find("vn_dflt"))
  set this.vn_dflt(take(@vector<int>,0)) IF empty($0.SubTree("config/*").current_node_.find("vn_dflt"))
  [for range(size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val")))] call cyclus::Query($0.SubTree("config/*").SubTree("vd_shape",0), "val", idx(range(size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val")))), of(double)) IF !empty($0.SubTree("config/*").current_node_.find("vd_shape"))
  [for range(size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val")))] put @vector<double>.put(idx(range(size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val")))), cyclus::Query($0.SubTree("config/*").SubTree("vd_shape",0),"val",idx(range(size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val")))),of(double))) IF !empty($0.SubTree("config/*").current_node_.find("vd_shape"))
  set this.vd_shape(fold(range(size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val"))); take(@vector<double>,size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val"))); ~')) IF !empty($0.SubTree("config/*").current_node_.find("vd_shape"))
  put take(@vector<double>,1).put(0, 0.5) IF empty($0.SubTree("config/*").current_node_.find("vd_shape"))
  set this.vd_shape(take(@vector<double>,1)') IF empty($0.SubTree("config/*").current_node_.find("vd_shape"))
  [for range(size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val")))] call cyclus::Query($0.SubTree("config/*").SubTree("vi_shape",0), "val", idx(range(size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val")))), of(int)) IF T
  [for range(size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val")))] put @vector<int>.put(idx(range(size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val")))), cyclus::Query($0.SubTree("config/*").SubTree("vi_shape",0),"val",idx(range(size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val")))),of(int))) IF T
  set this.vi_shape(fold(range(size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val"))); take(@vector<int>,size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val"))); ~')) IF T
  [for range(size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner")))] call cyclus::Query($0.SubTree("config/*").SubTree("outer",0), "inner", idx(range(size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner")))), of(double)) IF T
  [for range(size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner")))] put @vector<double>.put(idx(range(size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner")))), cyclus::Query($0.SubTree("config/*").SubTree("outer",0),"inner",idx(range(size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner")))),of(double))) IF T
  set this.vd_alias(fold(range(size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner"))); take(@vector<double>,size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner"))); ~')) IF T
  [for range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row")))] [for range(size($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))).current_node_.find("x")))] call cyclus::Query($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))), "x", idx(range(size($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))).current_node_.find("x")))), of(double)) IF T
  [for range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row")))] [for range(size($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))).current_node_.find("x")))] put @vector<double>.put(idx(range(size($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))).current_node_.find("x")))), cyclus::Query($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))),"x",idx(range(size($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))).current_node_.find("x")))),of(double))) IF T
  [for range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row")))] put @vector<vector<double>>.put(idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row")))), fold(range(size($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))).current_node_.find("x"))); take(@vector<double>,size($0.SubTree("config/*").SubTree("vv",0).SubTree("row",idx(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))))).current_node_.find("x"))); ~')) IF T
  set this.vv_req(fold(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))); take(@vector<vector<double>>,size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))); ~')) IF T
  [for range(size($0.SubTree("config/*").SubTree("set_dflt",0).current_node_.find("val")))] add @set<basic_string<char>>.add($0.SubTree("config/*").SubTree("set_dflt",0).GetString("val",idx(range(size($0.SubTree("config/*").SubTree("set_dflt",0).current_node_.find("val")))))) IF !empty($0.SubTree("config/*").current_node_.find("set_dflt")) & !has(@set<basic_string<char>>,$0.SubTree("config/*").SubTree("set_dflt",0).GetString("val",idx(range(size($0.SubTree("config/*").SubTree("set_dflt",0).current_node_.find("val"))))))
  set this.set_dflt(@set<basic_string<char>>) IF T
  add @set<basic_string<char>>.add("a") IF empty($0.SubTree("config/*").current_node_.find("set_dflt")) & !has(@set<basic_string<char>>,"a")
  add @set<basic_string<char>>.add("b") IF empty($0.SubTree("config/*").current_node_.find("set_dflt")) & !has(@set<basic_string<char>>',"b")
  [for range(size($0.SubTree("config/*").SubTree("set_req",0).current_node_.find("val")))] call cyclus::Query($0.SubTree("config/*").SubTree("set_req",0), "val", idx(range(size($0.SubTree("config/*").SubTree("set_req",0).current_node_.find("val")))), of(int)) IF T
  [for range(size($0.SubTree("config/*").SubTree("set_req",0).current_node_.find("val")))] add @set<int>.add(cyclus::Query($0.SubTree("config/*").SubTree("set_req",0),"val",idx(range(size($0.SubTree("config/*").SubTree("set_req",0).current_node_.find("val")))),of(int))) IF !has(@set<int>,cyclus::Query($0.SubTree("config/*").SubTree("set_req",0),"val",idx(range(size($0.SubTree("config/*").SubTree("set_req",0).current_node_.find("val")))),of(int)))
  set this.set_req(@set<int>) IF T
  [for range(size($0.SubTree("config/*").SubTree("list_dflt",0).current_node_.find("val")))] call cyclus::Query($0.SubTree("config/*").SubTree("list_dflt",0), "val", idx(range(size($0.SubTree("config/*").SubTree("list_dflt",0).current_node_.find("val")))), of(int)) IF !empty($0.SubTree("config/*").current_node_.find("list_dflt"))
  [for range(size($0.SubTree("config/*").SubTree("list_dflt",0).current_node_.find("val")))] add @list<int>.add(cyclus::Query($0.SubTree("config/*").SubTree("list_dflt",0),"val",idx(range(size($0.SubTree("config/*").SubTree("list_dflt",0).current_node_.find("val")))),of(int))) IF !empty($0.SubTree("config/*").current_node_.find("list_dflt"))
  set this.list_dflt(@list<int>) IF !empty($0.SubTree("config/*").current_node_.find("list_dflt"))
  set this.list_dflt([1]) IF empty($0.SubTree("config/*").current_node_.find("list_dflt"))
  [for range(size($0.SubTree("config/*").SubTree("list_req",0).current_node_.find("val")))] add @list<basic_string<char>>.add($0.SubTree("config/*").SubTree("list_req",0).GetString("val",idx(range(size($0.SubTree("config/*").SubTree("list_req",0).current_node_.find("val")))))) IF T
  set this.list_req(@list<basic_string<char>>) IF T
  call cyclus::Query($0.SubTree("config/*").SubTree("pair_dflt",0), "first", 0, of(int)) IF !empty($0.SubTree("config/*").current_node_.find("pair_dflt"))
  call cyclus::Query($0.SubTree("config/*").SubTree("pair_dflt",0), "second", 0, of(int)) IF !empty($0.SubTree("config/*").current_node_.find("pair_dflt"))
  set this.pair_dflt(pair(cyclus::Query($0.SubTree("config/*").SubTree("pair_dflt",0),"first",0,of(int)),cyclus::Query($0.SubTree("config/*").SubTree("pair_dflt",0),"second",0,of(int)))) IF !empty($0.SubTree("config/*").current_node_.find("pair_dflt"))
  call cyclus::Query($0.SubTree("config/*").SubTree("pr",0), "two", 0, of(double)) IF T
  set this.pair_req(pair($0.SubTree("config/*").SubTree("pr",0).GetString("one",0),cyclus::Query($0.SubTree("config/*").SubTree("pr",0),"two",0,of(double)))) IF T
  [for range(size($0.SubTree("config/*").SubTree("map_dflt",0).current_node_.find("item")))] call cyclus::Query($0.SubTree("config/*").SubTree("map_dflt",0), "item/val", idx(range(size($0.SubTree("config/*").SubTree("map_dflt",0).current_node_.find("item")))), of(double)) IF !empty($0.SubTree("config/*").current_node_.find("map_dflt"))
  [for range(size($0.SubTree("config/*").SubTree("map_dflt",0).current_node_.find("item")))] put @map<basic_string<char>, double>.put($0.SubTree("config/*").SubTree("map_dflt",0).GetString("item/key",idx(range(size($0.SubTree("config/*").SubTree("map_dflt",0).current_node_.find("item"))))), cyclus::Query($0.SubTree("config/*").SubTree("map_dflt",0),"item/val",idx(range(size($0.SubTree("config/*").SubTree("map_dflt",0).current_node_.find("item")))),of(double))) IF !empty($0.SubTree("config/*").current_node_.find("map_dflt"))
  set this.map_dflt(@map<basic_string<char>, double>) IF T
  put @map<basic_string<char>, double>.put("a", 1) IF empty($0.SubTree("config/*").current_node_.find("map_dflt"))
  [for range(size($0.SubTree("config/*").SubTree("streams",0).current_node_.find("stream")))] call cyclus::Query($0.SubTree("config/*").SubTree("streams",0), "stream/amt", idx(range(size($0.SubTree("config/*").SubTree("streams",0).current_node_.find("stream")))), of(double)) IF T
  [for range(size($0.SubTree("config/*").SubTree("streams",0).current_node_.find("stream")))] put @map<basic_string<char>, double>.put($0.SubTree("config/*").SubTree("streams",0).GetString("stream/name",idx(range(size($0.SubTree("config/*").SubTree("streams",0).current_node_.find("stream"))))), cyclus::Query($0.SubTree("config/*").SubTree("streams",0),"stream/amt",idx(range(size($0.SubTree("config/*").SubTree("streams",0).current_node_.find("stream")))),of(double))) IF T
  set this.map_req(@map<basic_string<char>, double>) IF T
  [for range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el")))] call cyclus::Query($0.SubTree("config/*").SubTree("mp",0), "el/k", idx(range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el")))), of(int)) IF !empty($0.SubTree("config/*").current_node_.find("mp"))
  [for range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el")))] call cyclus::Query($0.SubTree("config/*").SubTree("mp",0).SubTree("el/pr",idx(range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el"))))), "l", 0, of(int)) IF !empty($0.SubTree("config/*").current_node_.find("mp"))
  [for range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el")))] call cyclus::Query($0.SubTree("config/*").SubTree("mp",0).SubTree("el/pr",idx(range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el"))))), "r", 0, of(double)) IF !empty($0.SubTree("config/*").current_node_.find("mp"))
  [for range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el")))] put @map<int, pair<int, double>>.put(cyclus::Query($0.SubTree("config/*").SubTree("mp",0),"el/k",idx(range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el")))),of(int)), pair(cyclus::Query($0.SubTree("config/*").SubTree("mp",0).SubTree("el/pr",idx(range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el"))))),"l",0,of(int)),cyclus::Query($0.SubTree("config/*").SubTree("mp",0).SubTree("el/pr",idx(range(size($0.SubTree("config/*").SubTree("mp",0).current_node_.find("el"))))),"r",0,of(double)))) IF !empty($0.SubTree("config/*").current_node_.find("mp"))
  set this.map_pair(@map<int, pair<int, double>>) IF T
  [for range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el")))] [for range(size($0.SubTree("config/*").SubTree("mv",0).SubTree("el/ls",idx(range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el"))))).current_node_.find("v")))] put @vector<basic_string<char>>.put(idx(range(size($0.SubTree("config/*").SubTree("mv",0).SubTree("el/ls",idx(range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el"))))).current_node_.find("v")))), $0.SubTree("config/*").SubTree("mv",0).SubTree("el/ls",idx(range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el"))))).GetString("v",idx(range(size($0.SubTree("config/*").SubTree("mv",0).SubTree("el/ls",idx(range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el"))))).current_node_.find("v")))))) IF T
  [for range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el")))] put @map<basic_string<char>, vector<basic_string<char>>>.put($0.SubTree("config/*").SubTree("mv",0).GetString("el/k",idx(range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el"))))), fold(range(size($0.SubTree("config/*").SubTree("mv",0).SubTree("el/ls",idx(range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el"))))).current_node_.find("v"))); take(@vector<basic_string<char>>,size($0.SubTree("config/*").SubTree("mv",0).SubTree("el/ls",idx(range(size($0.SubTree("config/*").SubTree("mv",0).current_node_.find("el"))))).current_node_.find("v"))); ~')) IF T
  set this.map_vec(@map<basic_string<char>, vector<basic_string<char>>>) IF T
  set this.vs_int(take(@vector<basic_string<char>>,0)) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("i_req", cyclus::Query($0.SubTree("config/*"),"i_req",of(int)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("i_dflt", cyclus::Query($0.SubTree("config/*"),"i_dflt",of(int)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("i_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("i_dflt", 7, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("i_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("i_nuc", pyne::nucname::id($0.SubTree("config/*").GetString("i_nuc",0)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("i_nuc"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("i_nuc", pyne::nucname::id(922350000), vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("i_nuc"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("i_int", 3, vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("i_alias", cyclus::Query($0.SubTree("config/*"),"i_named",of(int)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("d_dflt", cyclus::Query($0.SubTree("config/*"),"d_dflt",of(double)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("d_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("d_dflt", 1.5, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("d_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("d_req", cyclus::Query($0.SubTree("config/*"),"d_req",of(double)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("f_dflt", cyclus::Query($0.SubTree("config/*"),"f_dflt",of(float)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("f_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("f_dflt", 1.5, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("f_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("b_dflt", boost::lexical_cast($0.SubTree("config/*").GetString("b_dflt",0),of(bool)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("b_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("b_dflt", true, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("b_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("b_req", boost::lexical_cast($0.SubTree("config/*").GetString("b_req",0),of(bool)), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("s_dflt", $0.SubTree("config/*").GetString("s_dflt",0), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("s_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("s_dflt", "x", vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("s_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("s_req", $0.SubTree("config/*").GetString("s_req",0), vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("blob_dflt", Blob{"blob"}, vector{[-1],([-1]+1)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vs_req", fold(range(size($0.SubTree("config/*").SubTree("vs_req",0).current_node_.find("val"))); take(@vector<basic_string<char>>,size($0.SubTree("config/*").SubTree("vs_req",0).current_node_.find("val"))); ~'), vector{[-1, -1],([-1, -1]+2)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vi_dflt", fold(range(size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val"))); take(@vector<int>,size($0.SubTree("config/*").SubTree("vi_dflt",0).current_node_.find("val"))); ~'), vector{[-1, -1],([-1, -1]+2)}) IF !empty($0.SubTree("config/*").current_node_.find("vi_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vi_dflt", take(@vector<int>,2)', vector{[-1, -1],([-1, -1]+2)}) IF empty($0.SubTree("config/*").current_node_.find("vi_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vn_dflt", fold(range(size($0.SubTree("config/*").SubTree("vn_dflt",0).current_node_.find("val"))); take(@vector<int>,size($0.SubTree("config/*").SubTree("vn_dflt",0).current_node_.find("val"))); ~'), vector{[-1, -1],([-1, -1]+2)}) IF !empty($0.SubTree("config/*").current_node_.find("vn_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vn_dflt", take(@vector<int>,0), vector{[-1, -1],([-1, -1]+2)}) IF empty($0.SubTree("config/*").current_node_.find("vn_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vd_shape", fold(range(size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val"))); take(@vector<double>,size($0.SubTree("config/*").SubTree("vd_shape",0).current_node_.find("val"))); ~'), vector{[3, -1],([3, -1]+2)}) IF !empty($0.SubTree("config/*").current_node_.find("vd_shape"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vd_shape", take(@vector<double>,1)', vector{[3, -1],([3, -1]+2)}) IF empty($0.SubTree("config/*").current_node_.find("vd_shape"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vi_shape", fold(range(size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val"))); take(@vector<int>,size($0.SubTree("config/*").SubTree("vi_shape",0).current_node_.find("val"))); ~'), vector{[4, -1],([4, -1]+2)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vd_alias", fold(range(size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner"))); take(@vector<double>,size($0.SubTree("config/*").SubTree("outer",0).current_node_.find("inner"))); ~'), vector{[-1, -1],([-1, -1]+2)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("vv_req", fold(range(size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))); take(@vector<vector<double>>,size($0.SubTree("config/*").SubTree("vv",0).current_node_.find("row"))); ~'), vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("set_dflt", @set<basic_string<char>>, vector{[-1, -1],([-1, -1]+2)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("set_req", @set<int>, vector{[-1, -1],([-1, -1]+2)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("list_dflt", @list<int>, vector{[-1, -1],([-1, -1]+2)}) IF !empty($0.SubTree("config/*").current_node_.find("list_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("list_dflt", [1], vector{[-1, -1],([-1, -1]+2)}) IF empty($0.SubTree("config/*").current_node_.find("list_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("list_req", @list<basic_string<char>>, vector{[-1, -1],([-1, -1]+2)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("pair_dflt", pair(cyclus::Query($0.SubTree("config/*").SubTree("pair_dflt",0),"first",0,of(int)),cyclus::Query($0.SubTree("config/*").SubTree("pair_dflt",0),"second",0,of(int))), vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF !empty($0.SubTree("config/*").current_node_.find("pair_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("pair_dflt", @pair<int, int>{first=1; second=2}, vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF empty($0.SubTree("config/*").current_node_.find("pair_dflt"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("pair_req", pair($0.SubTree("config/*").SubTree("pr",0).GetString("one",0),cyclus::Query($0.SubTree("config/*").SubTree("pr",0),"two",0,of(double))), vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("map_dflt", @map<basic_string<char>, double>, vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("map_req", @map<basic_string<char>, double>, vector{[-1, -1, -1],([-1, -1, -1]+3)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("map_pair", @map<int, pair<int, double>>, vector{[-1, -1, -1, -1, -1],([-1, -1, -1, -1, -1]+5)}) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("map_vec", @map<basic_string<char>, vector<basic_string<char>>>, vector{[-1, -1, -1, -1],([-1, -1, -1, -1]+4)}) IF T
  call <deep>.cyclus::Datum::AddVal("vs_int", take(@vector<basic_string<char>>,0), vector{[-1, -1],([-1, -1]+2)}) IF T
  call <deep>.cyclus::Datum::Record() IF T
fn cyclus::cycsa::AllVars::Clone
  call new AllVars{this.ctx_}.cyclus::cycsa::AllVars::InitFrom(this) IF T
  ret return(new AllVars{this.ctx_}) IF T
fn cyclus::cycsa::AllVars::schema
  ret return("<interleave>\n    <element name=\"i_req\">\n        <data type=\"int\"/>\n    </element>\n    <optional>\n        <element name=\"i_dflt\">\n            <data type=\"int\"/>\n        </element>\n    </optional>\n    <optional>\n        <element name=\"i_nuc\">\n            <data type=\"string\"/>\n        </element>\n    </optional>\n    <element name=\"i_named\">\n        <data type=\"int\"/>\n    </element>\n    <optional>\n        <element name=\"d_dflt\">\n            <data type=\"double\"/>\n        </element>\n    </optional>\n    <element name=\"d_req\">\n        <data type=\"double\"/>\n    </element>\n    <optional>\n        <element name=\"f_dflt\">\n            <data type=\"float\"/>\n        </element>\n    </optional>\n    <optional>\n        <element name=\"b_dflt\">\n            <data type=\"boolean\"/>\n        </element>\n    </optional>\n    <element name=\"b_req\">\n        <data type=\"boolean\"/>\n    </element>\n    <optional>\n        <element name=\"s_dflt\">\n            <data type=\"string\"/>\n        </element>\n    </optional>\n    <element name=\"s_req\">\n        <data type=\"string\"/>\n    </element>\n    <element name=\"vs_req\">\n        <oneOrMore>\n            <element name=\"val\">\n                <data type=\"string\"/>\n            </element>\n        </oneOrMore>\n    </element>\n    <optional>\n        <element name=\"vi_dflt\">\n            <oneOrMore>\n                <element name=\"val\">\n                    <data type=\"int\"/>\n                </element>\n            </oneOrMore>\n        </element>\n    </optional>\n    <optional>\n        <element name=\"vn_dflt\">\n            <oneOrMore>\n                <element name=\"val\">\n                    <data type=\"string\"/>\n                </element>\n            </oneOrMore>\n        </element>\n    </optional>\n    <optional>\n        <element name=\"vd_shape\">\n            <oneOrMore>\n                <element name=\"val\">\n                    <data type=\"double\"/>\n                </element>\n            </oneOrMore>\n        </element>\n    </optional>\n    <element name=\"vi_shape\">\n        <oneOrMore>\n            <element name=\"val\">\n                <data type=\"int\"/>\n            </element>\n        </oneOrMore>\n    </element>\n    <element name=\"outer\">\n        <oneOrMore>\n            <element name=\"inner\">\n                <data type=\"double\"/>\n            </element>\n        </oneOrMore>\n    </element>\n    <element name=\"vv\">\n        <oneOrMore>\n            <element name=\"row\">\n                <oneOrMore>\n                    <element name=\"x\">\n                        <data type=\"double\"/>\n                    </element>\n                </oneOrMore>\n            </element>\n        </oneOrMore>\n    </element>\n    <optional>\n        <element name=\"set_dflt\">\n            <oneOrMore>\n                <element name=\"val\">\n                    <data type=\"string\"/>\n                </element>\n            </oneOrMore>\n        </element>\n    </optional>\n    <element name=\"set_req\">\n        <oneOrMore>\n            <element name=\"val\">\n                <data type=\"int\"/>\n            </element>\n        </oneOrMore>\n    </element>\n    <optional>\n        <element name=\"list_dflt\">\n            <oneOrMore>\n                <element name=\"val\">\n                    <data type=\"int\"/>\n                </element>\n            </oneOrMore>\n        </element>\n    </optional>\n    <element name=\"list_req\">\n        <oneOrMore>\n            <element name=\"val\">\n                <data type=\"string\"/>\n            </element>\n        </oneOrMore>\n    </element>\n    <optional>\n        <element name=\"pair_dflt\">\n            <interleave>\n                <element name=\"first\">\n                    <data type=\"int\"/>\n                </element>\n                <element name=\"second\">\n                    <data type=\"int\"/>\n                </element>\n            </interleave>\n        </element>\n    </optional>\n    <element name=\"pr\">\n        <interleave>\n            <element name=\"one\">\n                <data type=\"string\"/>\n            </element>\n            <element name=\"two\">\n                <data type=\"double\"/>\n            </element>\n        </interleave>\n    </element>\n    <optional>\n        <element name=\"map_dflt\">\n            <oneOrMore>\n                <element name=\"item\">\n                    <interleave>\n                        <element name=\"key\">\n                            <data type=\"string\"/>\n                        </element>\n                        <element name=\"val\">\n                            <data type=\"double\"/>\n                        </element>\n                    </interleave>\n                </element>\n            </oneOrMore>\n        </element>\n    </optional>\n    <element name=\"streams\">\n        <oneOrMore>\n            <element name=\"stream\">\n                <interleave>\n                    <element name=\"name\">\n                        <data type=\"string\"/>\n                    </element>\n                    <element name=\"amt\">\n                        <data type=\"double\"/>\n                    </element>\n                </interleave>\n            </element>\n        </oneOrMore>\n    </element>\n    <optional>\n        <element name=\"mp\">\n            <oneOrMore>\n                <element name=\"el\">\n                    <interleave>\n                        <element name=\"k\">\n                            <data type=\"int\"/>\n                        </element>\n                        <element name=\"pr\">\n                            <interleave>\n                                <element name=\"l\">\n                                    <data type=\"int\"/>\n                                </element>\n                                <element name=\"r\">\n                                    <data type=\"double\"/>\n                                </element>\n                            </interleave>\n                        </element>\n                    </interleave>\n                </element>\n            </oneOrMore>\n        </element>\n    </optional>\n    <element name=\"mv\">\n        <oneOrMore>\n            <element name=\"el\">\n                <interleave>\n                    <element name=\"k\">\n                        <data type=\"string\"/>\n                    </element>\n                    <element name=\"ls\">\n                        <oneOrMore>\n                            <element name=\"v\">\n                                <data type=\"string\"/>\n                            </element>\n                        </oneOrMore>\n                    </element>\n                </interleave>\n            </element>\n        </oneOrMore>\n    </element>\n</interleave>\n") IF T
fn cyclus::cycsa::AllVars::annotations
  ret return(@Json::Value) IF @Json::Reader.parse("{\"name\":\"cyclus::cycsa::AllVars\",\"entity\":\"facility\",\"parents\":[\"cyclus::Facility\"],\"all_parents\":[\"cyclus::Agent\",\"cyclus::Facility\",\"cyclus::Ider\",\"cyclus::StateWrangler\",\"cyclus::TimeListener\",\"cyclus::Trader\"],\"vars\":{\"i_req\":{\"tooltip\":\"an int\",\"doc\":\"plain\",\"uilabel\":\"An int\",\"type\":\"int\",\"index\":0,\"shape\":[-1],\"alias\":\"i_req\"},\"i_dflt\":{\"default\":7,\"range\":[0,10],\"type\":\"int\",\"index\":1,\"shape\":[-1],\"alias\":\"i_dflt\",\"tooltip\":\"i_dflt\",\"uilabel\":\"i_dflt\"},\"i_nuc\":{\"default\":922350000,\"uitype\":\"nuclide\",\"type\":\"int\",\"index\":2,\"shape\":[-1],\"alias\":\"i_nuc\",\"tooltip\":\"i_nuc\",\"uilabel\":\"i_nuc\"},\"i_int\":{\"default\":3,\"internal\":true,\"type\":\"int\",\"index\":3,\"shape\":[-1],\"alias\":\"i_int\",\"tooltip\":\"i_int\",\"uilabel\":\"i_int\"},\"i_alias\":{\"alias\":\"i_named\",\"type\":\"int\",\"index\":4,\"shape\":[-1],\"tooltip\":\"i_alias\",\"uilabel\":\"i_alias\"},\"i_named\":\"i_alias\",\"d_dflt\":{\"default\":1.5,\"units\":\"kg\",\"type\":\"double\",\"index\":6,\"shape\":[-1],\"alias\":\"d_dflt\",\"tooltip\":\"d_dflt\",\"uilabel\":\"d_dflt\"},\"d_req\":{\"type\":\"double\",\"index\":7,\"shape\":[-1],\"alias\":\"d_req\",\"tooltip\":\"d_req\",\"uilabel\":\"d_req\"},\"f_dflt\":{\"default\":1.5,\"type\":\"float\",\"index\":8,\"shape\":[-1],\"alias\":\"f_dflt\",\"tooltip\":\"f_dflt\",\"uilabel\":\"f_dflt\"},\"b_dflt\":{\"default\":true,\"type\":\"bool\",\"index\":9,\"shape\":[-1],\"alias\":\"b_dflt\",\"tooltip\":\"b_dflt\",\"uilabel\":\"b_dflt\"},\"b_req\":{\"type\":\"bool\",\"index\":10,\"shape\":[-1],\"alias\":\"b_req\",\"tooltip\":\"b_req\",\"uilabel\":\"b_req\"},\"s_dflt\":{\"default\":\"x\",\"uitype\":\"incommodity\",\"type\":\"std::string\",\"index\":11,\"shape\":[-1],\"alias\":\"s_dflt\",\"tooltip\":\"s_dflt\",\"uilabel\":\"s_dflt\"},\"s_req\":{\"uitype\":\"recipe\",\"type\":\"std::string\",\"index\":12,\"shape\":[-1],\"alias\":\"s_req\",\"tooltip\":\"s_req\",\"uilabel\":\"s_req\"},\"blob_dflt\":{\"default\":\"blob\",\"internal\":true,\"type\":\"cyclus::Blob\",\"index\":13,\"shape\":[-1],\"alias\":\"blob_dflt\",\"tooltip\":\"blob_dflt\",\"uilabel\":\"blob_dflt\"},\"vs_req\":{\"uitype\":[\"oneormore\",\"incommodity\"],\"type\":[\"std::vector\",\"std::string\"],\"index\":14,\"shape\":[-1,-1],\"alias\":[\"vs_req\",\"val\"],\"tooltip\":[\"vs_req\",\"\"],\"uilabel\":[\"vs_req\",\"\"]},\"vi_dflt\":{\"default\":[1,2],\"type\":[\"std::vector\",\"int\"],\"index\":15,\"shape\":[-1,-1],\"alias\":[\"vi_dflt\",\"val\"],\"tooltip\":[\"vi_dflt\",\"\"],\"uilabel\":[\"vi_dflt\",\"\"]},\"vn_dflt\":{\"default\":[],\"uitype\":[\"oneormore\",\"nuclide\"],\"type\":[\"std::vector\",\"int\"],\"index\":16,\"shape\":[-1,-1],\"alias\":[\"vn_dflt\",\"val\"],\"tooltip\":[\"vn_dflt\",\"\"],\"uilabel\":[\"vn_dflt\",\"\"]},\"vd_shape\":{\"shape\":[3,-1],\"default\":[0.5],\"type\":[\"std::vector\",\"double\"],\"index\":17,\"alias\":[\"vd_shape\",\"val\"],\"tooltip\":[\"vd_shape\",\"\"],\"uilabel\":[\"vd_shape\",\"\"]},\"vi_shape\":{\"shape\":[4,-1],\"type\":[\"std::vector\",\"int\"],\"index\":18,\"alias\":[\"vi_shape\",\"val\"],\"tooltip\":[\"vi_shape\",\"\"],\"uilabel\":[\"vi_shape\",\"\"]},\"vd_alias\":{\"alias\":[\"outer\",\"inner\"],\"type\":[\"std::vector\",\"double\"],\"index\":19,\"shape\":[-1,-1],\"tooltip\":[\"vd_alias\",\"\"],\"uilabel\":[\"vd_alias\",\"\"]},\"outer\":\"vd_alias\",\"vv_req\":{\"alias\":[\"vv\",[\"row\",\"x\"]],\"type\":[\"std::vector\",[\"std::vector\",\"double\"]],\"index\":21,\"shape\":[-1,-1,-1],\"tooltip\":[\"vv_req\",[\"\",\"\"]],\"uilabel\":[\"vv_req\",[\"\",\"\"]]},\"vv\":\"vv_req\",\"set_dflt\":{\"default\":[\"a\",\"b\"],\"type\":[\"std::set\",\"std::string\"],\"index\":23,\"shape\":[-1,-1],\"alias\":[\"set_dflt\",\"val\"],\"tooltip\":[\"set_dflt\",\"\"],\"uilabel\":[\"set_dflt\",\"\"]},\"set_req\":{\"type\":[\"std::set\",\"int\"],\"index\":24,\"shape\":[-1,-1],\"alias\":[\"set_req\",\"val\"],\"tooltip\":[\"set_req\",\"\"],\"uilabel\":[\"set_req\",\"\"]},\"list_dflt\":{\"default\":[1],\"type\":[\"std::list\",\"int\"],\"index\":25,\"shape\":[-1,-1],\"alias\":[\"list_dflt\",\"val\"],\"tooltip\":[\"list_dflt\",\"\"],\"uilabel\":[\"list_dflt\",\"\"]},\"list_req\":{\"type\":[\"std::list\",\"std::string\"],\"index\":26,\"shape\":[-1,-1],\"alias\":[\"list_req\",\"val\"],\"tooltip\":[\"list_req\",\"\"],\"uilabel\":[\"list_req\",\"\"]},\"pair_dflt\":{\"default\":[1,2],\"type\":[\"std::pair\",\"int\",\"int\"],\"index\":27,\"shape\":[-1,-1,-1],\"alias\":[\"pair_dflt\",\"first\",\"second\"],\"tooltip\":[\"pair_dflt\",\"\",\"\"],\"uilabel\":[\"pair_dflt\",\"\",\"\"]},\"pair_req\":{\"alias\":[\"pr\",\"one\",\"two\"],\"type\":[\"std::pair\",\"std::string\",\"double\"],\"index\":28,\"shape\":[-1,-1,-1],\"tooltip\":[\"pair_req\",\"\",\"\"],\"uilabel\":[\"pair_req\",\"\",\"\"]},\"pr\":\"pair_req\",\"map_dflt\":{\"default\":{\"a\":1.0},\"type\":[\"std::map\",\"std::string\",\"double\"],\"index\":30,\"shape\":[-1,-1,-1],\"alias\":[[\"map_dflt\",\"item\"],\"key\",\"val\"],\"tooltip\":[[\"map_dflt\",\"\"],\"\",\"\"],\"uilabel\":[[\"map_dflt\",\"\"],\"\",\"\"]},\"map_req\":{\"alias\":[[\"streams\",\"stream\"],\"name\",\"amt\"],\"type\":[\"std::map\",\"std::string\",\"double\"],\"index\":31,\"shape\":[-1,-1,-1],\"tooltip\":[[\"map_req\",\"\"],\"\",\"\"],\"uilabel\":[[\"map_req\",\"\"],\"\",\"\"]},\"streams\":\"map_req\",\"map_pair\":{\"default\":{},\"alias\":[[\"mp\",\"el\"],\"k\",[\"pr\",\"l\",\"r\"]],\"type\":[\"std::map\",\"int\",[\"std::pair\",\"int\",\"double\"]],\"index\":33,\"shape\":[-1,-1,-1,-1,-1],\"tooltip\":[[\"map_pair\",\"\"],\"\",[\"\",\"\",\"\"]],\"uilabel\":[[\"map_pair\",\"\"],\"\",[\"\",\"\",\"\"]]},\"mp\":\"map_pair\",\"map_vec\":{\"alias\":[[\"mv\",\"el\"],\"k\",[\"ls\",\"v\"]],\"uitype\":[\"oneormore\",\"string\",[\"oneormore\",\"outcommodity\"]],\"type\":[\"std::map\",\"std::string\",[\"std::vector\",\"std::string\"]],\"index\":35,\"shape\":[-1,-1,-1,-1],\"tooltip\":[[\"map_vec\",\"\"],\"\",[\"\",\"\"]],\"uilabel\":[[\"map_vec\",\"\"],\"\",[\"\",\"\"]]},\"mv\":\"map_vec\",\"vs_int\":{\"default\":[],\"internal\":true,\"type\":[\"std::vector\",\"std::string\"],\"index\":37,\"shape\":[-1,-1],\"alias\":[\"vs_int\",\"val\"],\"tooltip\":[\"vs_int\",\"\"],\"uilabel\":[\"vs_int\",\"\"]},\"buf_cap\":{\"capacity\":\"d_dflt\",\"type\":[\"cyclus::toolkit::ResBuf\",\"cyclus::Material\"],\"index\":38,\"shape\":[-1,-1]},\"buf_prod\":{\"type\":[\"cyclus::toolkit::ResBuf\",\"cyclus::Product\"],\"index\":39,\"shape\":[-1,-1]},\"buf_res\":{\"type\":[\"cyclus::toolkit::ResBuf\",\"cyclus::Resource\"],\"index\":40,\"shape\":[-1,-1]}},\"doc\":\"every kind of state variable\",\"niche\":\"none\"}",@Json::Value)
  throw cyclus::ValueError() IF !@Json::Reader.parse("{\"name\":\"cyclus::cycsa::AllVars\",\"entity\":\"facility\",\"parents\":[\"cyclus::Facility\"],\"all_parents\":[\"cyclus::Agent\",\"cyclus::Facility\",\"cyclus::Ider\",\"cyclus::StateWrangler\",\"cyclus::TimeListener\",\"cyclus::Trader\"],\"vars\":{\"i_req\":{\"tooltip\":\"an int\",\"doc\":\"plain\",\"uilabel\":\"An int\",\"type\":\"int\",\"index\":0,\"shape\":[-1],\"alias\":\"i_req\"},\"i_dflt\":{\"default\":7,\"range\":[0,10],\"type\":\"int\",\"index\":1,\"shape\":[-1],\"alias\":\"i_dflt\",\"tooltip\":\"i_dflt\",\"uilabel\":\"i_dflt\"},\"i_nuc\":{\"default\":922350000,\"uitype\":\"nuclide\",\"type\":\"int\",\"index\":2,\"shape\":[-1],\"alias\":\"i_nuc\",\"tooltip\":\"i_nuc\",\"uilabel\":\"i_nuc\"},\"i_int\":{\"default\":3,\"internal\":true,\"type\":\"int\",\"index\":3,\"shape\":[-1],\"alias\":\"i_int\",\"tooltip\":\"i_int\",\"uilabel\":\"i_int\"},\"i_alias\":{\"alias\":\"i_named\",\"type\":\"int\",\"index\":4,\"shape\":[-1],\"tooltip\":\"i_alias\",\"uilabel\":\"i_alias\"},\"i_named\":\"i_alias\",\"d_dflt\":{\"default\":1.5,\"units\":\"kg\",\"type\":\"double\",\"index\":6,\"shape\":[-1],\"alias\":\"d_dflt\",\"tooltip\":\"d_dflt\",\"uilabel\":\"d_dflt\"},\"d_req\":{\"type\":\"double\",\"index\":7,\"shape\":[-1],\"alias\":\"d_req\",\"tooltip\":\"d_req\",\"uilabel\":\"d_req\"},\"f_dflt\":{\"default\":1.5,\"type\":\"float\",\"index\":8,\"shape\":[-1],\"alias\":\"f_dflt\",\"tooltip\":\"f_dflt\",\"uilabel\":\"f_dflt\"},\"b_dflt\":{\"default\":true,\"type\":\"bool\",\"index\":9,\"shape\":[-1],\"alias\":\"b_dflt\",\"tooltip\":\"b_dflt\",\"uilabel\":\"b_dflt\"},\"b_req\":{\"type\":\"bool\",\"index\":10,\"shape\":[-1],\"alias\":\"b_req\",\"tooltip\":\"b_req\",\"uilabel\":\"b_req\"},\"s_dflt\":{\"default\":\"x\",\"uitype\":\"incommodity\",\"type\":\"std::string\",\"index\":11,\"shape\":[-1],\"alias\":\"s_dflt\",\"tooltip\":\"s_dflt\",\"uilabel\":\"s_dflt\"},\"s_req\":{\"uitype\":\"recipe\",\"type\":\"std::string\",\"index\":12,\"shape\":[-1],\"alias\":\"s_req\",\"tooltip\":\"s_req\",\"uilabel\":\"s_req\"},\"blob_dflt\":{\"default\":\"blob\",\"internal\":true,\"type\":\"cyclus::Blob\",\"index\":13,\"shape\":[-1],\"alias\":\"blob_dflt\",\"tooltip\":\"blob_dflt\",\"uilabel\":\"blob_dflt\"},\"vs_req\":{\"uitype\":[\"oneormore\",\"incommodity\"],\"type\":[\"std::vector\",\"std::string\"],\"index\":14,\"shape\":[-1,-1],\"alias\":[\"vs_req\",\"val\"],\"tooltip\":[\"vs_req\",\"\"],\"uilabel\":[\"vs_req\",\"\"]},\"vi_dflt\":{\"default\":[1,2],\"type\":[\"std::vector\",\"int\"],\"index\":15,\"shape\":[-1,-1],\"alias\":[\"vi_dflt\",\"val\"],\"tooltip\":[\"vi_dflt\",\"\"],\"uilabel\":[\"vi_dflt\",\"\"]},\"vn_dflt\":{\"default\":[],\"uitype\":[\"oneormore\",\"nuclide\"],\"type\":[\"std::vector\",\"int\"],\"index\":16,\"shape\":[-1,-1],\"alias\":[\"vn_dflt\",\"val\"],\"tooltip\":[\"vn_dflt\",\"\"],\"uilabel\":[\"vn_dflt\",\"\"]},\"vd_shape\":{\"shape\":[3,-1],\"default\":[0.5],\"type\":[\"std::vector\",\"double\"],\"index\":17,\"alias\":[\"vd_shape\",\"val\"],\"tooltip\":[\"vd_shape\",\"\"],\"uilabel\":[\"vd_shape\",\"\"]},\"vi_shape\":{\"shape\":[4,-1],\"type\":[\"std::vector\",\"int\"],\"index\":18,\"alias\":[\"vi_shape\",\"val\"],\"tooltip\":[\"vi_shape\",\"\"],\"uilabel\":[\"vi_shape\",\"\"]},\"vd_alias\":{\"alias\":[\"outer\",\"inner\"],\"type\":[\"std::vector\",\"double\"],\"index\":19,\"shape\":[-1,-1],\"tooltip\":[\"vd_alias\",\"\"],\"uilabel\":[\"vd_alias\",\"\"]},\"outer\":\"vd_alias\",\"vv_req\":{\"alias\":[\"vv\",[\"row\",\"x\"]],\"type\":[\"std::vector\",[\"std::vector\",\"double\"]],\"index\":21,\"shape\":[-1,-1,-1],\"tooltip\":[\"vv_req\",[\"\",\"\"]],\"uilabel\":[\"vv_req\",[\"\",\"\"]]},\"vv\":\"vv_req\",\"set_dflt\":{\"default\":[\"a\",\"b\"],\"type\":[\"std::set\",\"std::string\"],\"index\":23,\"shape\":[-1,-1],\"alias\":[\"set_dflt\",\"val\"],\"tooltip\":[\"set_dflt\",\"\"],\"uilabel\":[\"set_dflt\",\"\"]},\"set_req\":{\"type\":[\"std::set\",\"int\"],\"index\":24,\"shape\":[-1,-1],\"alias\":[\"set_req\",\"val\"],\"tooltip\":[\"set_req\",\"\"],\"uilabel\":[\"set_req\",\"\"]},\"list_dflt\":{\"default\":[1],\"type\":[\"std::list\",\"int\"],\"index\":25,\"shape\":[-1,-1],\"alias\":[\"list_dflt\",\"val\"],\"tooltip\":[\"list_dflt\",\"\"],\"uilabel\":[\"list_dflt\",\"\"]},\"list_req\":{\"type\":[\"std::list\",\"std::string\"],\"index\":26,\"shape\":[-1,-1],\"alias\":[\"list_req\",\"val\"],\"tooltip\":[\"list_req\",\"\"],\"uilabel\":[\"list_req\",\"\"]},\"pair_dflt\":{\"default\":[1,2],\"type\":[\"std::pair\",\"int\",\"int\"],\"index\":27,\"shape\":[-1,-1,-1],\"alias\":[\"pair_dflt\",\"first\",\"second\"],\"tooltip\":[\"pair_dflt\",\"\",\"\"],\"uilabel\":[\"pair_dflt\",\"\",\"\"]},\"pair_req\":{\"alias\":[\"pr\",\"one\",\"two\"],\"type\":[\"std::pair\",\"std::string\",\"double\"],\"index\":28,\"shape\":[-1,-1,-1],\"tooltip\":[\"pair_req\",\"\",\"\"],\"uilabel\":[\"pair_req\",\"\",\"\"]},\"pr\":\"pair_req\",\"map_dflt\":{\"default\":{\"a\":1.0},\"type\":[\"std::map\",\"std::string\",\"double\"],\"index\":30,\"shape\":[-1,-1,-1],\"alias\":[[\"map_dflt\",\"item\"],\"key\",\"val\"],\"tooltip\":[[\"map_dflt\",\"\"],\"\",\"\"],\"uilabel\":[[\"map_dflt\",\"\"],\"\",\"\"]},\"map_req\":{\"alias\":[[\"streams\",\"stream\"],\"name\",\"amt\"],\"type\":[\"std::map\",\"std::string\",\"double\"],\"index\":31,\"shape\":[-1,-1,-1],\"tooltip\":[[\"map_req\",\"\"],\"\",\"\"],\"uilabel\":[[\"map_req\",\"\"],\"\",\"\"]},\"streams\":\"map_req\",\"map_pair\":{\"default\":{},\"alias\":[[\"mp\",\"el\"],\"k\",[\"pr\",\"l\",\"r\"]],\"type\":[\"std::map\",\"int\",[\"std::pair\",\"int\",\"double\"]],\"index\":33,\"shape\":[-1,-1,-1,-1,-1],\"tooltip\":[[\"map_pair\",\"\"],\"\",[\"\",\"\",\"\"]],\"uilabel\":[[\"map_pair\",\"\"],\"\",[\"\",\"\",\"\"]]},\"mp\":\"map_pair\",\"map_vec\":{\"alias\":[[\"mv\",\"el\"],\"k\",[\"ls\",\"v\"]],\"uitype\":[\"oneormore\",\"string\",[\"oneormore\",\"outcommodity\"]],\"type\":[\"std::map\",\"std::string\",[\"std::vector\",\"std::string\"]],\"index\":35,\"shape\":[-1,-1,-1,-1],\"tooltip\":[[\"map_vec\",\"\"],\"\",[\"\",\"\"]],\"uilabel\":[[\"map_vec\",\"\"],\"\",[\"\",\"\"]]},\"mv\":\"map_vec\",\"vs_int\":{\"default\":[],\"internal\":true,\"type\":[\"std::vector\",\"std::string\"],\"index\":37,\"shape\":[-1,-1],\"alias\":[\"vs_int\",\"val\"],\"tooltip\":[\"vs_int\",\"\"],\"uilabel\":[\"vs_int\",\"\"]},\"buf_cap\":{\"capacity\":\"d_dflt\",\"type\":[\"cyclus::toolkit::ResBuf\",\"cyclus::Material\"],\"index\":38,\"shape\":[-1,-1]},\"buf_prod\":{\"type\":[\"cyclus::toolkit::ResBuf\",\"cyclus::Product\"],\"index\":39,\"shape\":[-1,-1]},\"buf_res\":{\"type\":[\"cyclus::toolkit::ResBuf\",\"cyclus::Resource\"],\"index\":40,\"shape\":[-1,-1]}},\"doc\":\"every kind of state variable\",\"niche\":\"none\"}",@Json::Value)
fn cyclus::cycsa::AllVars::InitInv
  call this.buf_cap.cyclus::toolkit::ResBuf::Push($0["buf_cap"]) IF T
  call this.buf_prod.cyclus::toolkit::ResBuf::Push($0["buf_prod"]) IF T
  call this.buf_res.cyclus::toolkit::ResBuf::Push($0["buf_res"]) IF T
fn cyclus::cycsa::AllVars::SnapshotInv
  call this.buf_cap.cyclus::toolkit::ResBuf::PopN(size(this.buf_cap.rs_)) IF T
  call cyclus::toolkit::ResCast(this.buf_cap.PopN(size(this.buf_cap.rs_))) IF T
  put @map<basic_string<char>, vector<boost::shared_ptr<Resource>>>.put("buf_cap", cyclus::toolkit::ResCast(this.buf_cap.PopN(size(this.buf_cap.rs_)))) IF T
  call this.buf_cap.cyclus::toolkit::ResBuf::Push(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>["buf_cap"]) IF T
  call this.buf_prod.cyclus::toolkit::ResBuf::PopN(size(this.buf_prod.rs_)) IF T
  call cyclus::toolkit::ResCast(this.buf_prod.PopN(size(this.buf_prod.rs_))) IF T
  put @map<basic_string<char>, vector<boost::shared_ptr<Resource>>>.put("buf_prod", cyclus::toolkit::ResCast(this.buf_prod.PopN(size(this.buf_prod.rs_)))) IF T
  call this.buf_prod.cyclus::toolkit::ResBuf::Push(cyclus::toolkit::ResCast(this.buf_prod.PopN(size(this.buf_prod.rs_)))) IF T
  call this.buf_res.cyclus::toolkit::ResBuf::PopN(size(this.buf_res.rs_)) IF T
  put @map<basic_string<char>, vector<boost::shared_ptr<Resource>>>.put("buf_res", this.buf_res.PopN(size(this.buf_res.rs_))) IF T
  call this.buf_res.cyclus::toolkit::ResBuf::Push(this.buf_res.PopN(size(this.buf_res.rs_))) IF T
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
  seq 0<3 4<7 8<10
fn cyclus::cycsa::AllVars::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::AddVal("i_req", this.i_req, this.cycpp_shape_i_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("i_dflt", this.i_dflt, this.cycpp_shape_i_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("i_nuc", this.i_nuc, this.cycpp_shape_i_nuc) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("i_int", this.i_int, this.cycpp_shape_i_int) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("i_alias", this.i_alias, this.cycpp_shape_i_alias) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("d_dflt", this.d_dflt, this.cycpp_shape_d_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("d_req", this.d_req, this.cycpp_shape_d_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("f_dflt", this.f_dflt, this.cycpp_shape_f_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("b_dflt", this.b_dflt, this.cycpp_shape_b_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("b_req", this.b_req, this.cycpp_shape_b_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("s_dflt", this.s_dflt, this.cycpp_shape_s_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("s_req", this.s_req, this.cycpp_shape_s_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("blob_dflt", this.blob_dflt, this.cycpp_shape_blob_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("vs_req", this.vs_req, this.cycpp_shape_vs_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("vi_dflt", this.vi_dflt, this.cycpp_shape_vi_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("vn_dflt", this.vn_dflt, this.cycpp_shape_vn_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("vd_shape", this.vd_shape, this.cycpp_shape_vd_shape) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("vi_shape", this.vi_shape, this.cycpp_shape_vi_shape) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("vd_alias", this.vd_alias, this.cycpp_shape_vd_alias) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("vv_req", this.vv_req, this.cycpp_shape_vv_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("set_dflt", this.set_dflt, this.cycpp_shape_set_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("set_req", this.set_req, this.cycpp_shape_set_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("list_dflt", this.list_dflt, this.cycpp_shape_list_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("list_req", this.list_req, this.cycpp_shape_list_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("pair_dflt", this.pair_dflt, this.cycpp_shape_pair_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("pair_req", this.pair_req, this.cycpp_shape_pair_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("map_dflt", this.map_dflt, this.cycpp_shape_map_dflt) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("map_req", this.map_req, this.cycpp_shape_map_req) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("map_pair", this.map_pair, this.cycpp_shape_map_pair) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("map_vec", this.map_vec, this.cycpp_shape_map_vec) IF T
  call <deep>.cyclus::Datum::AddVal("vs_int", this.vs_int, this.cycpp_shape_vs_int) IF T
  call <deep>.cyclus::Datum::Record() IF T
fn cyclus::cycsa::HandVars::HandVars
  set this.lifetime_(-1) IF T
  set this.children_(set{}) IF T
  set this.parent_(NULL) IF T
  set this.parent_id_(-1) IF T
  set this.enter_time_(-1) IF T
  set this.prototype_("") IF T
  set this.spec_("UNSPECIFIED") IF T
  set cyclus::Agent::next_id_((cyclus::Agent::next_id_+1)) IF T
  set this.id_(cyclus::Agent::next_id_) IF T
  set this.ctx_($0) IF T
  add this.ctx_.agent_list_.add(this) IF !has(this.ctx_.agent_list_,this)
  set this.kind_("Inst") IF T
  set this.cycpp_shape_n_a(vector{}) IF T
  set this.cycpp_shape_n_b(vector{}) IF T
  set this.cycpp_shape_n_c(vector{}) IF T
  set this.hbuf(toolkit::ResBuf<Material>{}) IF T
  set this.cycpp_shape_hbuf(vector{}) IF T
fn cyclus::cycsa::HandVars::Clone
  call new HandVars{this.ctx_}.cyclus::cycsa::HandVars::InitFrom(this) IF T
  ret return(new HandVars{this.ctx_}) IF T
fn cyclus::cycsa::HandVars::annotations
  ret return(@Json::Value) IF @Json::Reader.parse("{\"name\":\"cyclus::cycsa::HandVars\",\"entity\":\"institution\",\"parents\":[\"cyclus::Institution\"],\"all_parents\":[\"cyclus::Agent\",\"cyclus::Ider\",\"cyclus::Institution\",\"cyclus::StateWrangler\",\"cyclus::TimeListener\"],\"vars\":{\"n_a\":{\"default\":5,\"type\":\"int\",\"index\":0,\"shape\":[-1],\"alias\":\"n_a\",\"tooltip\":\"n_a\",\"uilabel\":\"n_a\"},\"n_b\":{\"default\":6,\"derived_init\":\"n_b = n_b * 2;\",\"type\":\"int\",\"index\":1,\"shape\":[-1],\"alias\":\"n_b\",\"tooltip\":\"n_b\",\"uilabel\":\"n_b\"},\"n_c\":{\"default\":0,\"initfromcopy\":\"n_c = m->n_c + 1;\",\"initfromdb\":\"n_c = 12;\",\"infiletodb\":{\"read\":\"n_c = 13;\",\"write\":\"->AddVal(\\\"n_c\\\", 14)\"},\"snapshot\":\"->AddVal(\\\"n_c\\\", 15)\",\"type\":\"int\",\"index\":2,\"shape\":[-1],\"alias\":\"n_c\",\"tooltip\":\"n_c\",\"uilabel\":\"n_c\"},\"hbuf\":{\"capacity\":12.5,\"type\":[\"cyclus::toolkit::ResBuf\",\"cyclus::Material\"],\"index\":3,\"shape\":[-1,-1]}}}",@Json::Value)
  throw cyclus::ValueError() IF !@Json::Reader.parse("{\"name\":\"cyclus::cycsa::HandVars\",\"entity\":\"institution\",\"parents\":[\"cyclus::Institution\"],\"all_parents\":[\"cyclus::Agent\",\"cyclus::Ider\",\"cyclus::Institution\",\"cyclus::StateWrangler\",\"cyclus::TimeListener\"],\"vars\":{\"n_a\":{\"default\":5,\"type\":\"int\",\"index\":0,\"shape\":[-1],\"alias\":\"n_a\",\"tooltip\":\"n_a\",\"uilabel\":\"n_a\"},\"n_b\":{\"default\":6,\"derived_init\":\"n_b = n_b * 2;\",\"type\":\"int\",\"index\":1,\"shape\":[-1],\"alias\":\"n_b\",\"tooltip\":\"n_b\",\"uilabel\":\"n_b\"},\"n_c\":{\"default\":0,\"initfromcopy\":\"n_c = m->n_c + 1;\",\"initfromdb\":\"n_c = 12;\",\"infiletodb\":{\"read\":\"n_c = 13;\",\"write\":\"->AddVal(\\\"n_c\\\", 14)\"},\"snapshot\":\"->AddVal(\\\"n_c\\\", 15)\",\"type\":\"int\",\"index\":2,\"shape\":[-1],\"alias\":\"n_c\",\"tooltip\":\"n_c\",\"uilabel\":\"n_c\"},\"hbuf\":{\"capacity\":12.5,\"type\":[\"cyclus::toolkit::ResBuf\",\"cyclus::Material\"],\"index\":3,\"shape\":[-1,-1]}}}",@Json::Value)
fn cyclus::cycsa::HandVars::schema
  ret return("<interleave>\n    <optional>\n        <element name=\"n_a\">\n            <data type=\"int\"/>\n        </element>\n    </optional>\n    <optional>\n        <element name=\"n_b\">\n            <data type=\"int\"/>\n        </element>\n    </optional>\n    <optional>\n        <element name=\"n_c\">\n            <data type=\"int\"/>\n        </element>\n    </optional>\n</interleave>\n") IF T
fn cyclus::cycsa::HandVars::InfileToDb
  set this.cycpp_shape_n_a(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_n_b(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_n_c(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hbuf(vector{[-1, -1],([-1, -1]+2)}) IF T
  call cyclus::Query($0.SubTree("config/*"), "n_a", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("n_a"))
  set this.n_a(cyclus::Query($0.SubTree("config/*"),"n_a",of(int))) IF !empty($0.SubTree("config/*").current_node_.find("n_a"))
  set this.n_a(5) IF empty($0.SubTree("config/*").current_node_.find("n_a"))
  call cyclus::Query($0.SubTree("config/*"), "n_b", of(int)) IF !empty($0.SubTree("config/*").current_node_.find("n_b"))
  set this.n_b((2*cyclus::Query($0.SubTree("config/*"),"n_b",of(int)))) IF !empty($0.SubTree("config/*").current_node_.find("n_b"))
  set this.n_b(12) IF empty($0.SubTree("config/*").current_node_.find("n_b"))
  set this.n_c(13) IF T
  call $1.NewDatum("Info").cyclus::Datum::AddVal("n_a", cyclus::Query($0.SubTree("config/*"),"n_a",of(int)), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("n_a"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("n_a", 5, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("n_a"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("n_b", (2*cyclus::Query($0.SubTree("config/*"),"n_b",of(int))), vector{[-1],([-1]+1)}) IF !empty($0.SubTree("config/*").current_node_.find("n_b"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("n_b", 12, vector{[-1],([-1]+1)}) IF empty($0.SubTree("config/*").current_node_.find("n_b"))
  call $1.NewDatum("Info").cyclus::Datum::AddVal("n_c", 14) IF T
  call $1.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::cycsa::HandVars::Snapshot
  call $0.NewDatum("Info").cyclus::Datum::AddVal("n_a", this.n_a, this.cycpp_shape_n_a) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("n_b", this.n_b, this.cycpp_shape_n_b) IF T
  call $0.NewDatum("Info").cyclus::Datum::AddVal("n_c", 15) IF T
  call $0.NewDatum("Info").cyclus::Datum::Record() IF T
fn cyclus::cycsa::HandVars::InitFrom | cyclus::cycsa::HandVars *
  set this.prototype_($0.prototype_) IF T
  set this.kind_($0.kind_) IF T
  set this.spec_($0.spec_) IF T
  set this.lifetime_($0.lifetime_) IF T
  set this.ctx_($0.ctx_) IF T
  set this.cycpp_shape_n_a(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_n_b(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_n_c(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hbuf(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.n_a($0.n_a) IF T
  set this.n_b($0.n_b) IF T
  set this.n_c(($0.n_c+1)) IF T
  call this.hbuf.cyclus::toolkit::ResBuf::capacity($0.hbuf.cap_) IF T
  set this.n_a(-1) IF T
fn cyclus::cycsa::HandVars::InitFrom | cyclus::QueryableBackend *
  set this.cycpp_shape_n_a(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_n_b(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_n_c(vector{[-1],([-1]+1)}) IF T
  set this.cycpp_shape_hbuf(vector{[-1, -1],([-1, -1]+2)}) IF T
  set this.n_a($0.Query("Info",NULL).GetVal("n_a",of(int))) IF T
  set this.n_b($0.Query("Info",NULL).GetVal("n_b",of(int))) IF T
  set this.n_c(12) IF T
  call this.hbuf.cyclus::toolkit::ResBuf::capacity(12.5) IF T
fn cyclus::cycsa::HandVars::InitInv
  call this.hbuf.cyclus::toolkit::ResBuf::Push($0["hbuf"]) IF T
fn cyclus::cycsa::HandVars::SnapshotInv
  call this.hbuf.cyclus::toolkit::ResBuf::PopN(size(this.hbuf.rs_)) IF T
  call cyclus::toolkit::ResCast(this.hbuf.PopN(size(this.hbuf.rs_))) IF T
  put @map<basic_string<char>, vector<boost::shared_ptr<Resource>>>.put("hbuf", cyclus::toolkit::ResCast(this.hbuf.PopN(size(this.hbuf.rs_)))) IF T
  call this.hbuf.cyclus::toolkit::ResBuf::Push(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>["hbuf"]) IF T
  ret return(@map<basic_string<char>, vector<boost::shared_ptr<Resource>>>) IF T
  seq 0<3
