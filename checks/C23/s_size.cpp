#include "store.inc"
PBT_SUB_LEAK("size_t", 1, history<std::size_t>);
