#include "matrix.inc"
PBT_SUB("matrix_K_INT", 0.3, create<K_INT>);
