#include "forms.h"
namespace { struct R { R() { using namespace c06; add_mat2<float, double, 6, 6>("large matrix float from double 6x6"); } } r; }
