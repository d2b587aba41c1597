#include "colon.inc"
TABLE(int, int);
