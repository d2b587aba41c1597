#include "at.inc"
PBT_SUB("coca", 1, result<K_COCA>);
PBT_SUB("colon", 1, result<K_COLON>);
PBT_SUB("subset", 1, result<K_SUBSET>);
PBT_SUB("binop", 1, result<K_BINOP>);
PBT_SUB("unop", 1, result<K_UNOP>);
PBT_SUB("comp", 1, result<K_COMP>);
PBT_SUB("subop", 1, result<K_SUBOP>);
PBT_SUB("agrees", 1, agrees);
