#include "forms.h"
namespace { struct R { R() { c06::add_vec<float, double>(); } } r; }
