#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Inv, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Inv>);

#ifdef MC_THOROUGH
mc::add("depth 2: Inv, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Inv>);
#endif

mc::add("depth 1: Norm, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Norm>);

#ifdef MC_THOROUGH
mc::add("depth 2: Norm, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Norm>);
#endif

mc::add("own operand, imaginary_first positive_cross", alias<cml::imaginary_first, cml::positive_cross>); } } r; }
