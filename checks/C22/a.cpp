#include "at.inc"
PBT_SUB("double", 2, variable<double>);
PBT_SUB("int", 2, variable<int>);
