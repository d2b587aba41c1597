#include "matrix.inc"
PBT_SUB("matrix_VDBL", 0.3, (matrixIdx<double, I_VDBL>));
PBT_SUB("matrix_VBOOL", 0.3, (matrixIdx<double, I_VBOOL>));
PBT_SUB("matrix_COCAI", 0.3, (matrixIdx<double, I_COCAI>));
PBT_SUB("matrix_COCAD", 0.3, (matrixIdx<double, I_COCAD>));
