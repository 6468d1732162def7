#include "forms.h"
namespace { struct R { R() { c06::add_mat<double, double, 1, 1>("matrix double,double,1,1"); } } r; }
