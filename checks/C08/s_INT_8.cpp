#include "msub.inc"
PBT_SUB("read_INT_8", 1, (read<S_INT, 8,15>));
