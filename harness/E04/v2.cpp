#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("vector double dynamic<> 1", [] { vectors<double, cml::dynamic<>>(1); });
mc::add("vector double dynamic<> 3", [] { vectors<double, cml::dynamic<>>(3); });
mc::add("vector double dynamic<> 4", [] { vectors<double, cml::dynamic<>>(4); }); } } r; }
