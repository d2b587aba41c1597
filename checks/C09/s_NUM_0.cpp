#include "mwrite.inc"
PBT_SUB("write_NUM_0", 1, (writes<S_NUM, 0,5>));
