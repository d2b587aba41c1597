#include "types.inc"
NTYPES(ADD)
NTYPES(SUB)
NTYPES(MUL)
