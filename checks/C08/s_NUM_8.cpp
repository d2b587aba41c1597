#include "msub.inc"
PBT_SUB("read_NUM_8", 1, (read<S_NUM, 8,15>));
