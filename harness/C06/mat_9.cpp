#include "forms.h"
namespace { struct R { R() { c06::add_mat2<double, double, 4, 4>("matrix double,double,4,4"); } } r; }
