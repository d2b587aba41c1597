#include "msub.inc"
PBT_SUB("read_UN_8", 1, (read<S_UN, 8,15>));
