#include "write.inc"
PBT_SUB("write_BOOL", 1, writes<S_BOOL>);
