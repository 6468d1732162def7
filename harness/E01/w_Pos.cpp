#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("depth 1: Pos, 3 elements", depth1<3, Pos>); mc::add("depth 1: Pos, 4 elements", depth1<4, Pos>); mc::add("depth 2: Pos, 3 elements", wrap<3, Pos>); } } r; }
