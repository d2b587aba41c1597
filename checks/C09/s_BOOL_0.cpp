#include "mwrite.inc"
PBT_SUB("write_BOOL_0", 1, (writes<S_BOOL, 0,5>));
