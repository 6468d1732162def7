#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("vector float external<3> 3", [] { vectors<float, cml::external<3>>(3); });
mc::add("vector double external<> 3", [] { vectors<double, cml::external<>>(3); }); } } r; }
