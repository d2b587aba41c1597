#include "vector.inc"
PBT_SUB("variable_bool_false", 1, (variable<bool, false>));
PBT_SUB("elements_bool_false", 0.6, (elements<bool, false>));
