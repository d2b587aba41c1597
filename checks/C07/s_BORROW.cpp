#include "write.inc"
PBT_SUB("write_BORROW", 1, writes<S_BORROW>);
