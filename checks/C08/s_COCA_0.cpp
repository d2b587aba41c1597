#include "msub.inc"
PBT_SUB("read_COCA_0", 1, (read<S_COCA, 0,8>));
