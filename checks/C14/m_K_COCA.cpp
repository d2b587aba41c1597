#include "matrix.inc"
PBT_SUB("matrix_K_COCA", 0.3, create<K_COCA>);
