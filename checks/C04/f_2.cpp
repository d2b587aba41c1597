#include "fn.inc"
PBT_SUB("fn_ASIN", 1, fn<ASIN>);
PBT_SUB("range_ASIN", 0.2, range<ASIN>);
PBT_SUB("fn_COSH", 1, fn<COSH>);
PBT_SUB("range_COSH", 0.2, range<COSH>);
PBT_SUB("fn_LN", 1, fn<LN>);
PBT_SUB("range_LN", 0.2, range<LN>);
