#include "fn.inc"
PBT_SUB("fn_SINH", 1, fn<SINH>);
PBT_SUB("range_SINH", 0.2, range<SINH>);
PBT_SUB("fn_TAN", 1, fn<TAN>);
PBT_SUB("range_TAN", 0.2, range<TAN>);
PBT_SUB("fn_SQRT", 1, fn<SQRT>);
PBT_SUB("range_SQRT", 0.2, range<SQRT>);
