#include "types.inc"
NTYPES(DIV)
NTYPES(POW)
