#include "msub.inc"
PBT_SUB("read_OP_0", 1, (read<S_OP, 0,8>));
