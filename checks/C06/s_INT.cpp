#include "sub.inc"
PBT_SUB("read_INT", 1, read<S_INT>);
