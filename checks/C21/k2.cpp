#include "conv.inc"
PBT_SUB("coca", 1, kind<K_COCA>);
PBT_SUB("colon", 0.5, kind<K_COLON>);
PBT_SUB("subset", 1, kind<K_SUBSET>);
PBT_SUB("binop", 1, kind<K_BINOP>);
PBT_SUB("unop", 1, kind<K_UNOP>);
PBT_SUB("comp", 1, kind<K_COMP>);
PBT_SUB("subop", 1, kind<K_SUBOP>);
