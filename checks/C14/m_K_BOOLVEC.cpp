#include "matrix.inc"
PBT_SUB("matrix_K_BOOLVEC", 0.3, create<K_BOOLVEC>);
