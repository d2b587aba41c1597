#include "at.inc"
PBT_SUB("bool", 2, variable<bool>);
PBT_SUB("borrowed", 2, borrowed);
