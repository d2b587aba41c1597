#include "sub.inc"
PBT_SUB("read_UN", 1, read<S_UN>);
