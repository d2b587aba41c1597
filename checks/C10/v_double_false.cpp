#include "vector.inc"
PBT_SUB("variable_double_false", 1, (variable<double, false>));
PBT_SUB("elements_double_false", 0.6, (elements<double, false>));
