#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Prod, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Prod>);
mc::add("depth 2: Prod, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Prod>); } } r; }
