#include "comp.inc"
PBT_SUB("pairs_LE", 1, comp<LE>);
PBT_SUB("uses_LE_num", 0.3, (uses<LE, double>));
PBT_SUB("uses_LE_int", 0.3, (uses<LE, int>));
