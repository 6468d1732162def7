#include "forms.h"
namespace { struct R { R() { using namespace c06; add_mat<double, double, 5, 5>("large matrix double from double 5x5"); } } r; }
