#include "pairs.inc"
PBT_SUB("pairs_MUL", 1, pairs<MUL>);
