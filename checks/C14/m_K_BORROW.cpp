#include "matrix.inc"
PBT_SUB("matrix_K_BORROW", 0.3, create<K_BORROW>);
