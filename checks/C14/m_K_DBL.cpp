#include "matrix.inc"
PBT_SUB("matrix_K_DBL", 0.3, create<K_DBL>);
