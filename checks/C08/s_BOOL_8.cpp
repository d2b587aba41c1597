#include "msub.inc"
PBT_SUB("read_BOOL_8", 1, (read<S_BOOL, 8,15>));
