#include "forms.h"
namespace { struct R { R() { using namespace c06; add_mat<double, float, 9, 3>("large matrix double from float 9x3"); } } r; }
