#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Inv, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, Inv>);

#ifdef MC_THOROUGH
mc::add("depth 2: Inv, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, Inv>);
#endif

mc::add("depth 1: Norm, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, Norm>);

#ifdef MC_THOROUGH
mc::add("depth 2: Norm, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, Norm>);
#endif

mc::add("own operand, real_first negative_cross", alias<cml::real_first, cml::negative_cross>); } } r; }
