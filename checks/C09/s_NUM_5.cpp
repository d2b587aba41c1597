#include "mwrite.inc"
PBT_SUB("write_NUM_5", 1, (writes<S_NUM, 5,10>));
