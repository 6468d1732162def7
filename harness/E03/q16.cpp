#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Plus, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, Plus>);
mc::add("depth 2: Plus, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, Plus>); } } r; }
