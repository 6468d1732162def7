#define G14_D long double
#include "proj.cpp"
