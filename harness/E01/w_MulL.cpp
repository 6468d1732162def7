#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("depth 1: MulL, 3 elements", depth1<3, MulL>); mc::add("depth 1: MulL, 4 elements", depth1<4, MulL>); mc::add("depth 2: MulL, 3 elements", wrap<3, MulL>); } } r; }
