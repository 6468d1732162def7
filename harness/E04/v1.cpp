#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("vector double fixed<3> 3", [] { vectors<double, cml::fixed<3>>(3); });
mc::add("vector double fixed<2> 2", [] { vectors<double, cml::fixed<2>>(2); }); } } r; }
