#include "matrix.inc"
PBT_SUB("matrix_K_INTVEC", 0.3, create<K_INTVEC>);
