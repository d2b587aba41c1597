#include "matrix.inc"
PBT_SUB("matrix_K_BOOL", 0.3, create<K_BOOL>);
