#include "sub.inc"
PBT_SUB("read_BORROW", 1, read<S_BORROW>);
