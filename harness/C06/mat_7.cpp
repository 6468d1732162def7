#include "forms.h"
namespace { struct R { R() { c06::add_mat2<double, int, 3, 1>("matrix double,int,3,1"); } } r; }
