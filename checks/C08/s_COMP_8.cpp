#include "msub.inc"
PBT_SUB("read_COMP_8", 1, (read<S_COMP, 8,15>));
