#include "fn.inc"
PBT_SUB("fn_NEG", 1, fn<NEG>);
PBT_SUB("range_NEG", 0.2, range<NEG>);
PBT_SUB("fn_COS", 1, fn<COS>);
PBT_SUB("range_COS", 0.2, range<COS>);
PBT_SUB("fn_ATAN", 1, fn<ATAN>);
PBT_SUB("range_ATAN", 0.2, range<ATAN>);
PBT_SUB("fn_EXP", 1, fn<EXP>);
PBT_SUB("range_EXP", 0.2, range<EXP>);
