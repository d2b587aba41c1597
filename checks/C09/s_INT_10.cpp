#include "mwrite.inc"
PBT_SUB("write_INT_10", 1, (writes<S_INT, 10,15>));
