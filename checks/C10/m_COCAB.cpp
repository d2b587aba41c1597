#include "matrix.inc"
PBT_SUB("matrix_COCAB", 0.3, (matrixIdx<double, I_COCAB>));
PBT_SUB("matrix_COLON", 0.3, (matrixIdx<double, I_COLON>));
PBT_SUB("matrix_OP", 0.3, (matrixIdx<double, I_OP>));
PBT_SUB("matrix_COMP", 0.3, (matrixIdx<double, I_COMP>));
