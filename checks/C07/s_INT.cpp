#include "write.inc"
PBT_SUB("write_INT", 1, writes<S_INT>);
