#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("quaternion double real_first negative_cross", [] { quaternions<double, cml::real_first, cml::negative_cross>(); }); } } r; }
