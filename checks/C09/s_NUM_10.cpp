#include "mwrite.inc"
PBT_SUB("write_NUM_10", 1, (writes<S_NUM, 10,15>));
