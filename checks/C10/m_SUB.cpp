#include "matrix.inc"
PBT_SUB("matrix_SUB", 0.3, (matrixIdx<double, I_SUB>));
PBT_SUB("matrix_BORROW", 0.3, (matrixIdx<double, I_BORROW>));
PBT_SUB("matrix_REP", 0.3, (matrixIdx<double, I_REP>));
PBT_SUB("matrix_int_INT", 0.2, (matrixIdx<int, I_INT>));
PBT_SUB("matrix_int_DBL", 0.2, (matrixIdx<int, I_DBL>));
PBT_SUB("matrix_int_VDBL", 0.2, (matrixIdx<int, I_VDBL>));
PBT_SUB("matrix_int_VBOOL", 0.2, (matrixIdx<int, I_VBOOL>));
PBT_SUB("no_matrix", 0.2, noMatrix<double>);
