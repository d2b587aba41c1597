#include "matrix.inc"
PBT_SUB("matrix_K_NUM", 0.3, create<K_NUM>);
