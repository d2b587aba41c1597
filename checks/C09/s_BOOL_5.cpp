#include "mwrite.inc"
PBT_SUB("write_BOOL_5", 1, (writes<S_BOOL, 5,10>));
