#include "msub.inc"
PBT_SUB("read_NUM_0", 1, (read<S_NUM, 0,8>));
