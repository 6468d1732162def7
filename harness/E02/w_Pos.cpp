#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("depth 1: Pos, 2x3", depth1<2, 3, Pos>); mc::add("depth 2: Pos, 3x2", wrap<3, 2, Pos>); } } r; }
