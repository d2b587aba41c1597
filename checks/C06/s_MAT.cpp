#include "sub.inc"
PBT_SUB("read_MAT", 1, read<S_MAT>);
