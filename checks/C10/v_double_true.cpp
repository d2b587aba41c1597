#include "vector.inc"
PBT_SUB("variable_double_true", 1, (variable<double, true>));
PBT_SUB("elements_double_true", 0.6, (elements<double, true>));
