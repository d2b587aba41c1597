#include "comp.inc"
PBT_SUB("pairs_GT", 1, comp<GT>);
PBT_SUB("uses_GT_num", 0.3, (uses<GT, double>));
PBT_SUB("uses_GT_int", 0.3, (uses<GT, int>));
