#include "mwrite.inc"
PBT_SUB("write_BORROW_0", 1, (writes<S_BORROW, 0,5>));
