#include "../C01/types.inc"
NTYPES(LE)
NTYPES(GT)
NTYPES(GE)
