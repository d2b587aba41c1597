#include "msub.inc"
PBT_SUB("read_UN_0", 1, (read<S_UN, 0,8>));
