#include "mwrite.inc"
PBT_SUB("write_BORROW_10", 1, (writes<S_BORROW, 10,15>));
