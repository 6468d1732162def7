#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Minus, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, Minus>);

#ifdef MC_THOROUGH
mc::add("depth 2: Minus, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, Minus>);
#endif

mc::add("depth 1: Neg, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, Neg>);
mc::add("depth 2: Neg, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, Neg>);
mc::add("depth 1: MulL, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, MulL>);
mc::add("depth 2: MulL, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, MulL>);
mc::add("depth 1: Div, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, Div>);

#ifdef MC_THOROUGH
mc::add("depth 2: Div, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, Div>);
#endif
 } } r; }
