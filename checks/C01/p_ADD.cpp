#include "pairs.inc"
PBT_SUB("pairs_ADD", 1, pairs<ADD>);
