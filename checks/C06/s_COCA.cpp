#include "sub.inc"
PBT_SUB("read_COCA", 1, read<S_COCA>);
