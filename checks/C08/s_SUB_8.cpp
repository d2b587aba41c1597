#include "msub.inc"
PBT_SUB("read_SUB_8", 1, (read<S_SUB, 8,15>));
