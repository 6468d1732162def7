#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("depth 1: MulL, 2x3", depth1<2, 3, MulL>); mc::add("depth 2: MulL, 3x2", wrap<3, 2, MulL>); } } r; }
