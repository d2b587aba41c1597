#include "sub.inc"
PBT_SUB("read_COMP", 1, read<S_COMP>);
