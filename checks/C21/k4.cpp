#include "conv.inc"
PBT_SUB("derived_bool", 1, derived<bool>);
PBT_SUB("chain", 2, chain);
