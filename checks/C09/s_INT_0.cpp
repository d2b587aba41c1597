#include "mwrite.inc"
PBT_SUB("write_INT_0", 1, (writes<S_INT, 0,5>));
