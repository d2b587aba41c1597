#include "../C01/types.inc"
NTYPES(EQ)
NTYPES(NE)
NTYPES(LT)
