#include "forms.h"
namespace { struct R { R() { c06::add_mat<double, float, 1, 3>("matrix double,float,1,3"); } } r; }
