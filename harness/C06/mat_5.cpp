#include "forms.h"
namespace { struct R { R() { c06::add_mat<int, double, 3, 3>("matrix int,double,3,3"); } } r; }
