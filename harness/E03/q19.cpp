#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Pos, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, Pos>);

#ifdef MC_THOROUGH
mc::add("depth 2: Pos, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, Pos>);
#endif

mc::add("depth 1: MulR, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, MulR>);

#ifdef MC_THOROUGH
mc::add("depth 2: MulR, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, MulR>);
#endif

mc::add("depth 1: Conj, imaginary_first negative_cross", depth1<cml::imaginary_first, cml::negative_cross, Conj>);
mc::add("depth 2: Conj, imaginary_first negative_cross", depth2<cml::imaginary_first, cml::negative_cross, Conj>);
mc::add("expressions on both sides, imaginary_first negative_cross", both<cml::imaginary_first, cml::negative_cross>); } } r; }
