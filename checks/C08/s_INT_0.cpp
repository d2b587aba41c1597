#include "msub.inc"
PBT_SUB("read_INT_0", 1, (read<S_INT, 0,8>));
