#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Minus, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Minus>);

#ifdef MC_THOROUGH
mc::add("depth 2: Minus, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Minus>);
#endif

mc::add("depth 1: Neg, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Neg>);
mc::add("depth 2: Neg, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Neg>);
mc::add("depth 1: MulL, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, MulL>);
mc::add("depth 2: MulL, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, MulL>);
mc::add("depth 1: Div, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Div>);

#ifdef MC_THOROUGH
mc::add("depth 2: Div, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Div>);
#endif
 } } r; }
