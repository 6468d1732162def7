#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("quaternion double real_first positive_cross", [] { quaternions<double, cml::real_first, cml::positive_cross>(); });
mc::add("quaternion float real_first positive_cross", [] { quaternions<float, cml::real_first, cml::positive_cross>(); }); } } r; }
