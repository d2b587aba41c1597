#include "pairs.inc"
PBT_SUB("pairs_DIV", 1, pairs<DIV>);
