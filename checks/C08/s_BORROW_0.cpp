#include "msub.inc"
PBT_SUB("read_BORROW_0", 1, (read<S_BORROW, 0,8>));
