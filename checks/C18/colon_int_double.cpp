#include "creation.inc"
PBT_SUB("colon int C_SC double C_SC", 0.01, (ranges<int, double, C_SC, C_SC>));
PBT_SUB("colon int C_SC double C_VEC", 0.01, (ranges<int, double, C_SC, C_VEC>));
PBT_SUB("colon int C_SC double C_CONST", 0.01, (ranges<int, double, C_SC, C_CONST>));
PBT_SUB("colon int C_SC double C_RVAL", 0.01, (ranges<int, double, C_SC, C_RVAL>));
PBT_SUB("colon int C_SC double C_OP", 0.01, (ranges<int, double, C_SC, C_OP>));
PBT_SUB("colon int C_SC double C_LONG", 0.01, (ranges<int, double, C_SC, C_LONG>));
PBT_SUB("colon int C_VEC double C_SC", 0.01, (ranges<int, double, C_VEC, C_SC>));
PBT_SUB("colon int C_VEC double C_VEC", 0.01, (ranges<int, double, C_VEC, C_VEC>));
PBT_SUB("colon int C_VEC double C_CONST", 0.01, (ranges<int, double, C_VEC, C_CONST>));
PBT_SUB("colon int C_VEC double C_RVAL", 0.01, (ranges<int, double, C_VEC, C_RVAL>));
PBT_SUB("colon int C_VEC double C_OP", 0.01, (ranges<int, double, C_VEC, C_OP>));
PBT_SUB("colon int C_VEC double C_LONG", 0.01, (ranges<int, double, C_VEC, C_LONG>));
PBT_SUB("colon int C_CONST double C_SC", 0.01, (ranges<int, double, C_CONST, C_SC>));
PBT_SUB("colon int C_CONST double C_VEC", 0.01, (ranges<int, double, C_CONST, C_VEC>));
PBT_SUB("colon int C_CONST double C_CONST", 0.01, (ranges<int, double, C_CONST, C_CONST>));
PBT_SUB("colon int C_CONST double C_RVAL", 0.01, (ranges<int, double, C_CONST, C_RVAL>));
PBT_SUB("colon int C_CONST double C_OP", 0.01, (ranges<int, double, C_CONST, C_OP>));
PBT_SUB("colon int C_CONST double C_LONG", 0.01, (ranges<int, double, C_CONST, C_LONG>));
PBT_SUB("colon int C_RVAL double C_SC", 0.01, (ranges<int, double, C_RVAL, C_SC>));
PBT_SUB("colon int C_RVAL double C_VEC", 0.01, (ranges<int, double, C_RVAL, C_VEC>));
PBT_SUB("colon int C_RVAL double C_CONST", 0.01, (ranges<int, double, C_RVAL, C_CONST>));
PBT_SUB("colon int C_RVAL double C_RVAL", 0.01, (ranges<int, double, C_RVAL, C_RVAL>));
PBT_SUB("colon int C_RVAL double C_OP", 0.01, (ranges<int, double, C_RVAL, C_OP>));
PBT_SUB("colon int C_RVAL double C_LONG", 0.01, (ranges<int, double, C_RVAL, C_LONG>));
PBT_SUB("colon int C_OP double C_SC", 0.01, (ranges<int, double, C_OP, C_SC>));
PBT_SUB("colon int C_OP double C_VEC", 0.01, (ranges<int, double, C_OP, C_VEC>));
PBT_SUB("colon int C_OP double C_CONST", 0.01, (ranges<int, double, C_OP, C_CONST>));
PBT_SUB("colon int C_OP double C_RVAL", 0.01, (ranges<int, double, C_OP, C_RVAL>));
PBT_SUB("colon int C_OP double C_OP", 0.01, (ranges<int, double, C_OP, C_OP>));
PBT_SUB("colon int C_OP double C_LONG", 0.01, (ranges<int, double, C_OP, C_LONG>));
PBT_SUB("colon int C_LONG double C_SC", 0.01, (ranges<int, double, C_LONG, C_SC>));
PBT_SUB("colon int C_LONG double C_VEC", 0.01, (ranges<int, double, C_LONG, C_VEC>));
PBT_SUB("colon int C_LONG double C_CONST", 0.01, (ranges<int, double, C_LONG, C_CONST>));
PBT_SUB("colon int C_LONG double C_RVAL", 0.01, (ranges<int, double, C_LONG, C_RVAL>));
PBT_SUB("colon int C_LONG double C_OP", 0.01, (ranges<int, double, C_LONG, C_OP>));
PBT_SUB("colon int C_LONG double C_LONG", 0.01, (ranges<int, double, C_LONG, C_LONG>));
