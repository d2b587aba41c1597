#include "pairs.inc"
PBT_SUB("pairs_SUB", 1, pairs<SUB>);
