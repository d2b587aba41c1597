#include "conv.inc"
PBT_SUB("num", 1, kind<K_NUM>);
PBT_SUB("dbl", 1, kind<K_DBL>);
PBT_SUB("intvec", 1, kind<K_INTVEC>);
PBT_SUB("boolvec", 1, kind<K_BOOLVEC>);
PBT_SUB("int", 1, kind<K_INT>);
PBT_SUB("bool", 0.3, kind<K_BOOL>);
PBT_SUB("borrow", 1, kind<K_BORROW>);
