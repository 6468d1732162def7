#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("depth 1: Neg, 2x3", depth1<2, 3, Neg>); mc::add("depth 2: Neg, 3x2", wrap<3, 2, Neg>); } } r; }
