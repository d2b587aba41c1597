#include "store.inc"
PBT_SUB_LEAK("double", 1, history<double>);
