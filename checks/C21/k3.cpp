#include "conv.inc"
PBT_SUB("derived_double", 1, derived<double>);
PBT_SUB("derived_int", 1, derived<int>);
