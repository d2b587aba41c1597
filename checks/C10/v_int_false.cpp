#include "vector.inc"
PBT_SUB("variable_int_false", 1, (variable<int, false>));
PBT_SUB("elements_int_false", 0.6, (elements<int, false>));
