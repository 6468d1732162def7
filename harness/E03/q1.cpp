#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Plus, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Plus>);
mc::add("depth 2: Plus, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Plus>); } } r; }
