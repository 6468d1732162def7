#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Minus, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Minus>);

#ifdef MC_THOROUGH
mc::add("depth 2: Minus, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Minus>);
#endif

mc::add("depth 1: Neg, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Neg>);

#ifdef MC_THOROUGH
mc::add("depth 2: Neg, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Neg>);
#endif

mc::add("depth 1: MulL, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, MulL>);

#ifdef MC_THOROUGH
mc::add("depth 2: MulL, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, MulL>);
#endif

mc::add("depth 1: Div, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Div>);

#ifdef MC_THOROUGH
mc::add("depth 2: Div, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Div>);
#endif
 } } r; }
