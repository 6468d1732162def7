#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("depth 2: MulL, 3x3", wrap<3, 3, MulL>);
#ifdef MC_THOROUGH
mc::add("depth 2: Div, 1x3", wrap<1, 3, Div>); mc::add("depth 2: Had, 3x1", depth2<3, 1, Had>); mc::add("selection, 3x3", select<3, 3>);
#endif
} } r; }
