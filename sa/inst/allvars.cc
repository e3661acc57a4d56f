// Analysis input only, never linked or run.
#include "allvars.h"

extern "C" cyclus::Agent* ConstructAllVars(cyclus::Context* ctx) {
  return new cyclus::cycsa::AllVars(ctx);
}

extern "C" cyclus::Agent* ConstructHandVars(cyclus::Context* ctx) {
  return new cyclus::cycsa::HandVars(ctx);
}
