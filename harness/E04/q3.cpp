#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("quaternion double imaginary_first positive_cross", [] { quaternions<double, cml::imaginary_first, cml::positive_cross>(); }); } } r; }
