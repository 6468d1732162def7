#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("depth 1: MulR, 2x3", depth1<2, 3, MulR>); mc::add("depth 2: MulR, 3x2", wrap<3, 2, MulR>); } } r; }
