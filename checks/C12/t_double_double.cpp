#include "colon.inc"
TABLE(double, double);
