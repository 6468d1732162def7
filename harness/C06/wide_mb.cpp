#include "forms.h"
namespace { struct R { R() { using namespace c06; add_mat2<double, double, 2, 8>("large matrix double from double 2x8"); } } r; }
