#include "msub.inc"
PBT_SUB("read_SUB_0", 1, (read<S_SUB, 0,8>));
