#include "matrix.inc"
PBT_SUB("matrix_K_COLON", 0.3, create<K_COLON>);
