#include "forms.h"
namespace { struct R { R() { c06::add_mat2<double, double, 2, 3>("matrix double,double,2,3"); } } r; }
