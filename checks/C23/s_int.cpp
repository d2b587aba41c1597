#include "store.inc"
PBT_SUB_LEAK("int", 1, history<int>);
