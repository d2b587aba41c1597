#include "comp.inc"
PBT_SUB("pairs_EQ", 1, comp<EQ>);
PBT_SUB("uses_EQ_num", 0.3, (uses<EQ, double>));
PBT_SUB("uses_EQ_int", 0.3, (uses<EQ, int>));
