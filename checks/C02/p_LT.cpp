#include "comp.inc"
PBT_SUB("pairs_LT", 1, comp<LT>);
PBT_SUB("uses_LT_num", 0.3, (uses<LT, double>));
PBT_SUB("uses_LT_int", 0.3, (uses<LT, int>));
