#include "matrix.inc"
PBT_SUB("matrix_K_SUBSET", 0.3, create<K_SUBSET>);
