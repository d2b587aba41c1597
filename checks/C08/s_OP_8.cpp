#include "msub.inc"
PBT_SUB("read_OP_8", 1, (read<S_OP, 8,15>));
