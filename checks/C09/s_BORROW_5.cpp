#include "mwrite.inc"
PBT_SUB("write_BORROW_5", 1, (writes<S_BORROW, 5,10>));
