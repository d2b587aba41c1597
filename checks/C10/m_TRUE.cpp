#include "matrix.inc"
PBT_SUB("matrix_TRUE", 0.3, (matrixIdx<double, I_TRUE>));
PBT_SUB("matrix_INT", 0.3, (matrixIdx<double, I_INT>));
PBT_SUB("matrix_DBL", 0.3, (matrixIdx<double, I_DBL>));
PBT_SUB("matrix_VINT", 0.3, (matrixIdx<double, I_VINT>));
