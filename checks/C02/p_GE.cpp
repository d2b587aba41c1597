#include "comp.inc"
PBT_SUB("pairs_GE", 1, comp<GE>);
PBT_SUB("uses_GE_num", 0.3, (uses<GE, double>));
PBT_SUB("uses_GE_int", 0.3, (uses<GE, int>));
