#include "qexpr.h"
namespace { struct R { R() { using namespace e03; mc::add("depth 1: Pos, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, Pos>);

#ifdef MC_THOROUGH
mc::add("depth 2: Pos, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, Pos>);
#endif

mc::add("depth 1: MulR, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, MulR>);

#ifdef MC_THOROUGH
mc::add("depth 2: MulR, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, MulR>);
#endif

mc::add("depth 1: Conj, real_first negative_cross", depth1<cml::real_first, cml::negative_cross, Conj>);

#ifdef MC_THOROUGH
mc::add("depth 2: Conj, real_first negative_cross", depth2<cml::real_first, cml::negative_cross, Conj>);
#endif

mc::add("expressions on both sides, real_first negative_cross", both<cml::real_first, cml::negative_cross>); } } r; }
