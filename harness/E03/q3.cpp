#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Prod, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Prod>);
mc::add("depth 2: Prod, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Prod>); } } r; }
