#include "msub.inc"
PBT_SUB("read_BORROW_8", 1, (read<S_BORROW, 8,15>));
