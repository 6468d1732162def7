#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Prod, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, Prod>);
mc::add("depth 2: Prod, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, Prod>); } } r; }
