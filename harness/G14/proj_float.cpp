#define G14_D float
#include "proj.cpp"
