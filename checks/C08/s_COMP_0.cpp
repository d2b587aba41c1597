#include "msub.inc"
PBT_SUB("read_COMP_0", 1, (read<S_COMP, 0,8>));
