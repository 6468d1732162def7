#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("depth 1: MulR, 3 elements", depth1<3, MulR>); mc::add("depth 1: MulR, 4 elements", depth1<4, MulR>); mc::add("depth 2: MulR, 3 elements", wrap<3, MulR>); } } r; }
