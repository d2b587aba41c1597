#include "creation.inc"
PBT_SUB("vector double C_SC", 0.02, (zeros<double, C_SC>));
PBT_SUB("vector double C_VEC", 0.02, (zeros<double, C_VEC>));
PBT_SUB("vector double C_CONST", 0.02, (zeros<double, C_CONST>));
PBT_SUB("vector double C_RVAL", 0.02, (zeros<double, C_RVAL>));
PBT_SUB("vector double C_OP", 0.02, (zeros<double, C_OP>));
PBT_SUB("vector double C_LONG", 0.02, (zeros<double, C_LONG>));
PBT_SUB("vector int C_SC", 0.02, (zeros<int, C_SC>));
PBT_SUB("vector int C_VEC", 0.02, (zeros<int, C_VEC>));
PBT_SUB("vector int C_CONST", 0.02, (zeros<int, C_CONST>));
PBT_SUB("vector int C_RVAL", 0.02, (zeros<int, C_RVAL>));
PBT_SUB("vector int C_OP", 0.02, (zeros<int, C_OP>));
PBT_SUB("vector int C_LONG", 0.02, (zeros<int, C_LONG>));
