#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Inv, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, Inv>);
mc::add("depth 2: Inv, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, Inv>);
mc::add("depth 1: Norm, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, Norm>);

#ifdef MC_THOROUGH
mc::add("depth 2: Norm, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, Norm>);
#endif

mc::add("own operand, imaginary_first negative_cross", alias<cml::imaginary_first, cml::negative_cross>); } } r; }
