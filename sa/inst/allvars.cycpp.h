// Analysis input only, never linked or run: one archetype with a state
// variable of every kind cycpp supports.  It is run through the tree's own
// cli/cycpp.py, and the contracts of C29 are about the code that comes out.
#ifndef CYCSA_ALLVARS_H_
#define CYCSA_ALLVARS_H_

#include "cyclus.h"

namespace cyclus {
namespace cycsa {

class AllVars : public cyclus::Facility {
 public:
  AllVars(cyclus::Context* ctx) : cyclus::Facility(ctx) {}
  virtual ~AllVars() {}

  #pragma cyclus note {"doc": "every kind of state variable", "niche": "none"}

  #pragma cyclus

  virtual void Tick() {}
  virtual void Tock() {}

  #pragma cyclus var {"tooltip": "an int", "doc": "plain", "uilabel": "An int"}
  int i_req;
  #pragma cyclus var {"default": 7, "range": [0, 10]}
  int i_dflt;
  #pragma cyclus var {"default": 922350000, "uitype": "nuclide"}
  int i_nuc;
  #pragma cyclus var {"default": 3, "internal": True}
  int i_int;
  #pragma cyclus var {"alias": "i_named"}
  int i_alias;
  #pragma cyclus var {"default": 1.5, "units": "kg"}
  double d_dflt;
  #pragma cyclus var {}
  double d_req;
  #pragma cyclus var {"default": 1.5}
  float f_dflt;
  #pragma cyclus var {"default": True}
  bool b_dflt;
  #pragma cyclus var {}
  bool b_req;
  #pragma cyclus var {"default": "x", "uitype": "incommodity"}
  std::string s_dflt;
  #pragma cyclus var {"uitype": "recipe"}
  std::string s_req;
  #pragma cyclus var {"default": "blob", "internal": True}
  cyclus::Blob blob_dflt;

  #pragma cyclus var {"uitype": ["oneormore", "incommodity"]}
  std::vector<std::string> vs_req;
  #pragma cyclus var {"default": [1, 2]}
  std::vector<int> vi_dflt;
  #pragma cyclus var {"default": [], "uitype": ["oneormore", "nuclide"]}
  std::vector<int> vn_dflt;
  #pragma cyclus var {"shape": [3, -1], "default": [0.5]}
  std::vector<double> vd_shape;
  #pragma cyclus var {"shape": [4]}
  std::vector<int> vi_shape;
  #pragma cyclus var {"alias": ["outer", "inner"]}
  std::vector<double> vd_alias;
  #pragma cyclus var {"alias": ["vv", ["row", "x"]]}
  std::vector<std::vector<double> > vv_req;
  #pragma cyclus var {"default": ["a", "b"]}
  std::set<std::string> set_dflt;
  #pragma cyclus var {}
  std::set<int> set_req;
  #pragma cyclus var {"default": [1]}
  std::list<int> list_dflt;
  #pragma cyclus var {}
  std::list<std::string> list_req;
  #pragma cyclus var {"default": [1, 2]}
  std::pair<int, int> pair_dflt;
  #pragma cyclus var {"alias": ["pr", "one", "two"]}
  std::pair<std::string, double> pair_req;
  #pragma cyclus var {"default": {"a": 1.0}}
  std::map<std::string, double> map_dflt;
  #pragma cyclus var {"alias": [["streams", "stream"], "name", "amt"]}
  std::map<std::string, double> map_req;
  #pragma cyclus var {"default": {}, "alias": [["mp", "el"], "k", ["pr", "l", "r"]]}
  std::map<int, std::pair<int, double> > map_pair;
  #pragma cyclus var {"alias": [["mv", "el"], "k", ["ls", "v"]], "uitype": ["oneormore", "string", ["oneormore", "outcommodity"]]}
  std::map<std::string, std::vector<std::string> > map_vec;
  #pragma cyclus var {"default": [], "internal": True}
  std::vector<std::string> vs_int;

  #pragma cyclus var {"capacity": "d_dflt"}
  cyclus::toolkit::ResBuf<cyclus::Material> buf_cap;
  #pragma cyclus var {}
  cyclus::toolkit::ResBuf<cyclus::Product> buf_prod;
  #pragma cyclus var {}
  cyclus::toolkit::ResBuf<cyclus::Resource> buf_res;
};

class HandVars : public cyclus::Institution {
 public:
  HandVars(cyclus::Context* ctx) : cyclus::Institution(ctx) {}
  virtual ~HandVars() {}

  #pragma cyclus exec lim = 5

  #pragma cyclus decl

  #pragma cyclus var {"default": lim}
  int n_a;
  #pragma cyclus var {"default": n_a["default"] + 1, "derived_init": "n_b = n_b * 2;"}
  int n_b;
  #pragma cyclus var { \
    "default": 0, \
    "initfromcopy": "n_c = m->n_c + 1;", \
    "initfromdb": "n_c = 12;", \
    "infiletodb": {"read": "n_c = 13;", "write": "->AddVal(\"n_c\", 14)"}, \
    "snapshot": "->AddVal(\"n_c\", 15)", \
    }
  int n_c;
  #pragma cyclus var {"capacity": 12.5}
  cyclus::toolkit::ResBuf<cyclus::Material> hbuf;
};

#pragma cyclus def clone cyclus::cycsa::HandVars
#pragma cyclus def annotations cyclus::cycsa::HandVars
#pragma cyclus def schema cyclus::cycsa::HandVars
#pragma cyclus def infiletodb cyclus::cycsa::HandVars
#pragma cyclus def snapshot cyclus::cycsa::HandVars

inline void HandVars::InitFrom(HandVars* m) {
  #pragma cyclus impl initfromcopy cyclus::cycsa::HandVars
  n_a = -1;
}

inline void HandVars::InitFrom(cyclus::QueryableBackend* b) {
  #pragma cyclus impl initfromdb cyclus::cycsa::HandVars
}

inline void HandVars::InitInv(cyclus::Inventories& inv) {
  #pragma cyclus impl initinv cyclus::cycsa::HandVars
}

inline cyclus::Inventories HandVars::SnapshotInv() {
  #pragma cyclus impl snapshotinv cyclus::cycsa::HandVars
  return invs;
}

}  // namespace cycsa
}  // namespace cyclus

#endif  // CYCSA_ALLVARS_H_
