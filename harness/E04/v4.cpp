#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("vector int fixed<3> 3", [] { vectors<int, cml::fixed<3>>(3); });
mc::add("vector int dynamic<> 2", [] { vectors<int, cml::dynamic<>>(2); }); } } r; }
