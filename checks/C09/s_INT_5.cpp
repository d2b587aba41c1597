#include "mwrite.inc"
PBT_SUB("write_INT_5", 1, (writes<S_INT, 5,10>));
