#include "sub.inc"
PBT_SUB("read_OP", 1, read<S_OP>);
