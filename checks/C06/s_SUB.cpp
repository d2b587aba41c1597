#include "sub.inc"
PBT_SUB("read_SUB", 1, read<S_SUB>);
