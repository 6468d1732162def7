#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("quaternion double imaginary_first negative_cross", [] { quaternions<double, cml::imaginary_first, cml::negative_cross>(); }); } } r; }
