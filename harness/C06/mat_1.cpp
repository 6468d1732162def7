#include "forms.h"
namespace { struct R { R() { c06::add_mat<double, double, 2, 2>("matrix double,double,2,2"); } } r; }
