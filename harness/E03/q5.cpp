#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Inv, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Inv>);
mc::add("depth 2: Inv, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Inv>);
mc::add("depth 1: Norm, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Norm>);

#ifdef MC_THOROUGH
mc::add("depth 2: Norm, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Norm>);
#endif

mc::add("own operand, real_first positive_cross", alias<cml::real_first, cml::positive_cross>); } } r; }
