// warnings in programs without R
#include "etr_pch.hpp"
constexpr bool STANDALONE = true;
static size_t warningsOfR() { return 0; }
#include "warn.inc"
PBT_SUB("matrix", 0.2, matrices);
PBT_SUB("rep", 0.1, reps);
PBT_SUB("colon", 0.2, colons);
PBT_SUB("times", 0.1, times);
PBT_SUB("conditions", 0.3, conditions);
PBT_SUB("positions", 0.2, positions);
PBT_SUB("silent", 0.4, silent);
PBT_SUB("derivatives", 0.1, derivatives);
