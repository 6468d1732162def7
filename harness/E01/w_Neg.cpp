#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("depth 1: Neg, 3 elements", depth1<3, Neg>); mc::add("depth 1: Neg, 4 elements", depth1<4, Neg>); mc::add("depth 2: Neg, 3 elements", wrap<3, Neg>); } } r; }
