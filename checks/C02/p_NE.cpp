#include "comp.inc"
PBT_SUB("pairs_NE", 1, comp<NE>);
PBT_SUB("uses_NE_num", 0.3, (uses<NE, double>));
PBT_SUB("uses_NE_int", 0.3, (uses<NE, int>));
