#include "forms.h"
namespace { struct R { R() { c06::add_vec<double, int>(); } } r; }
