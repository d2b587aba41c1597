#include "msub.inc"
PBT_SUB("read_BOOL_0", 1, (read<S_BOOL, 0,8>));
