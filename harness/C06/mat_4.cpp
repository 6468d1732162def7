#include "forms.h"
namespace { struct R { R() { c06::add_mat2<float, double, 3, 2>("matrix float,double,3,2"); } } r; }
