#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Minus, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, Minus>);

#ifdef MC_THOROUGH
mc::add("depth 2: Minus, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, Minus>);
#endif

mc::add("depth 1: Neg, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, Neg>);

#ifdef MC_THOROUGH
mc::add("depth 2: Neg, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, Neg>);
#endif

mc::add("depth 1: MulL, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, MulL>);

#ifdef MC_THOROUGH
mc::add("depth 2: MulL, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, MulL>);
#endif

mc::add("depth 1: Div, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, Div>);

#ifdef MC_THOROUGH
mc::add("depth 2: Div, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, Div>);
#endif
 } } r; }
