#include "sub.inc"
PBT_SUB("read_BOOL", 1, read<S_BOOL>);
