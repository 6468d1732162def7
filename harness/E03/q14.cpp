#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Pos, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Pos>);

#ifdef MC_THOROUGH
mc::add("depth 2: Pos, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Pos>);
#endif

mc::add("depth 1: MulR, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, MulR>);

#ifdef MC_THOROUGH
mc::add("depth 2: MulR, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, MulR>);
#endif

mc::add("depth 1: Conj, imaginary_first positive_cross", depth1<cml::imaginary_first, cml::positive_cross, Conj>);

#ifdef MC_THOROUGH
mc::add("depth 2: Conj, imaginary_first positive_cross", depth2<cml::imaginary_first, cml::positive_cross, Conj>);
#endif

mc::add("expressions on both sides, imaginary_first positive_cross", both<cml::imaginary_first, cml::positive_cross>); } } r; }
