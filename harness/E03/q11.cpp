#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Plus, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Plus>);

#ifdef MC_THOROUGH
mc::add("depth 2: Plus, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Plus>);
#endif
 } } r; }
