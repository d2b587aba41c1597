#include "matrix.inc"
PBT_SUB("matrix_K_BINOP", 0.3, create<K_BINOP>);
