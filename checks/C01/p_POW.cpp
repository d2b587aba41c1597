#include "pairs.inc"
PBT_SUB("pairs_POW", 1, pairs<POW>);
