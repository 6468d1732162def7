#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("depth 2: Neg, 4 elements", wrap<4, Neg>);
#ifdef MC_THOROUGH
mc::add("depth 2: Div, 2 elements", wrap<2, Div>); mc::add("depth 2: Had, 2 elements", depth2<2, Had>); mc::add("subvector, 4 elements", subs<4>);
#endif
} } r; }
