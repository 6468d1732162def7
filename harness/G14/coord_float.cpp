#define G14_D float
#include "coord.cpp"
