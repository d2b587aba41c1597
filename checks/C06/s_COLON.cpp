#include "sub.inc"
PBT_SUB("read_COLON", 1, read<S_COLON>);
