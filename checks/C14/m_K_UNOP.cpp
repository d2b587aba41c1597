#include "matrix.inc"
PBT_SUB("matrix_K_UNOP", 0.3, create<K_UNOP>);
