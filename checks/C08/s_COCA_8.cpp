#include "msub.inc"
PBT_SUB("read_COCA_8", 1, (read<S_COCA, 8,15>));
