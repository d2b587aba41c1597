#include "fn.inc"
PBT_SUB("fn_SIN", 1, fn<SIN>);
PBT_SUB("range_SIN", 0.2, range<SIN>);
PBT_SUB("fn_ACOS", 1, fn<ACOS>);
PBT_SUB("range_ACOS", 0.2, range<ACOS>);
PBT_SUB("fn_TANH", 1, fn<TANH>);
PBT_SUB("range_TANH", 0.2, range<TANH>);
