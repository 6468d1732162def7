#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Pos, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Pos>);

#ifdef MC_THOROUGH
mc::add("depth 2: Pos, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Pos>);
#endif

mc::add("depth 1: MulR, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, MulR>);

#ifdef MC_THOROUGH
mc::add("depth 2: MulR, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, MulR>);
#endif

mc::add("depth 1: Conj, real_first positive_cross", depth1<cml::real_first, cml::positive_cross, Conj>);
mc::add("depth 2: Conj, real_first positive_cross", depth2<cml::real_first, cml::positive_cross, Conj>);
mc::add("expressions on both sides, real_first positive_cross", both<cml::real_first, cml::positive_cross>); } } r; }
