#include "colon.inc"
TABLE(double, int);
