#include "mwrite.inc"
PBT_SUB("write_BOOL_10", 1, (writes<S_BOOL, 10,15>));
