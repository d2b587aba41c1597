#include "store.inc"
PBT_SUB_LEAK("bool", 1, history<bool>);
