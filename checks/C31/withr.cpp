// warnings in programs which are compiled for R (in a namespace of its own)
#define WITH_R
#include "etr_pch.hpp"
constexpr bool STANDALONE = false;
static size_t warningsOfR() { return Rcpp::warnings(); }
#include "warn.inc"
PBT_SUB("matrix R", 0.1, matrices);
PBT_SUB("rep R", 0.1, reps);
PBT_SUB("colon R", 0.1, colons);
PBT_SUB("times R", 0.1, times);
PBT_SUB("conditions R", 0.1, conditions);
PBT_SUB("positions R", 0.1, positions);
PBT_SUB("silent R", 0.1, silent);
PBT_SUB("derivatives R", 0.1, derivatives);
