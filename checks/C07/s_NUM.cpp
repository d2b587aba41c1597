#include "write.inc"
PBT_SUB("write_NUM", 1, writes<S_NUM>);
