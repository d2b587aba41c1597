#include "sub.inc"
PBT_SUB("read_NUM", 1, read<S_NUM>);
