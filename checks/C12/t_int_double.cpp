#include "colon.inc"
TABLE(int, double);
