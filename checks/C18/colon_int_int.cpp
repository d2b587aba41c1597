#include "creation.inc"
PBT_SUB("colon int C_SC int C_SC", 0.01, (ranges<int, int, C_SC, C_SC>));
PBT_SUB("colon int C_SC int C_VEC", 0.01, (ranges<int, int, C_SC, C_VEC>));
PBT_SUB("colon int C_SC int C_CONST", 0.01, (ranges<int, int, C_SC, C_CONST>));
PBT_SUB("colon int C_SC int C_RVAL", 0.01, (ranges<int, int, C_SC, C_RVAL>));
PBT_SUB("colon int C_SC int C_OP", 0.01, (ranges<int, int, C_SC, C_OP>));
PBT_SUB("colon int C_SC int C_LONG", 0.01, (ranges<int, int, C_SC, C_LONG>));
PBT_SUB("colon int C_VEC int C_SC", 0.01, (ranges<int, int, C_VEC, C_SC>));
PBT_SUB("colon int C_VEC int C_VEC", 0.01, (ranges<int, int, C_VEC, C_VEC>));
PBT_SUB("colon int C_VEC int C_CONST", 0.01, (ranges<int, int, C_VEC, C_CONST>));
PBT_SUB("colon int C_VEC int C_RVAL", 0.01, (ranges<int, int, C_VEC, C_RVAL>));
PBT_SUB("colon int C_VEC int C_OP", 0.01, (ranges<int, int, C_VEC, C_OP>));
PBT_SUB("colon int C_VEC int C_LONG", 0.01, (ranges<int, int, C_VEC, C_LONG>));
PBT_SUB("colon int C_CONST int C_SC", 0.01, (ranges<int, int, C_CONST, C_SC>));
PBT_SUB("colon int C_CONST int C_VEC", 0.01, (ranges<int, int, C_CONST, C_VEC>));
PBT_SUB("colon int C_CONST int C_CONST", 0.01, (ranges<int, int, C_CONST, C_CONST>));
PBT_SUB("colon int C_CONST int C_RVAL", 0.01, (ranges<int, int, C_CONST, C_RVAL>));
PBT_SUB("colon int C_CONST int C_OP", 0.01, (ranges<int, int, C_CONST, C_OP>));
PBT_SUB("colon int C_CONST int C_LONG", 0.01, (ranges<int, int, C_CONST, C_LONG>));
PBT_SUB("colon int C_RVAL int C_SC", 0.01, (ranges<int, int, C_RVAL, C_SC>));
PBT_SUB("colon int C_RVAL int C_VEC", 0.01, (ranges<int, int, C_RVAL, C_VEC>));
PBT_SUB("colon int C_RVAL int C_CONST", 0.01, (ranges<int, int, C_RVAL, C_CONST>));
PBT_SUB("colon int C_RVAL int C_RVAL", 0.01, (ranges<int, int, C_RVAL, C_RVAL>));
PBT_SUB("colon int C_RVAL int C_OP", 0.01, (ranges<int, int, C_RVAL, C_OP>));
PBT_SUB("colon int C_RVAL int C_LONG", 0.01, (ranges<int, int, C_RVAL, C_LONG>));
PBT_SUB("colon int C_OP int C_SC", 0.01, (ranges<int, int, C_OP, C_SC>));
PBT_SUB("colon int C_OP int C_VEC", 0.01, (ranges<int, int, C_OP, C_VEC>));
PBT_SUB("colon int C_OP int C_CONST", 0.01, (ranges<int, int, C_OP, C_CONST>));
PBT_SUB("colon int C_OP int C_RVAL", 0.01, (ranges<int, int, C_OP, C_RVAL>));
PBT_SUB("colon int C_OP int C_OP", 0.01, (ranges<int, int, C_OP, C_OP>));
PBT_SUB("colon int C_OP int C_LONG", 0.01, (ranges<int, int, C_OP, C_LONG>));
PBT_SUB("colon int C_LONG int C_SC", 0.01, (ranges<int, int, C_LONG, C_SC>));
PBT_SUB("colon int C_LONG int C_VEC", 0.01, (ranges<int, int, C_LONG, C_VEC>));
PBT_SUB("colon int C_LONG int C_CONST", 0.01, (ranges<int, int, C_LONG, C_CONST>));
PBT_SUB("colon int C_LONG int C_RVAL", 0.01, (ranges<int, int, C_LONG, C_RVAL>));
PBT_SUB("colon int C_LONG int C_OP", 0.01, (ranges<int, int, C_LONG, C_OP>));
PBT_SUB("colon int C_LONG int C_LONG", 0.01, (ranges<int, int, C_LONG, C_LONG>));
