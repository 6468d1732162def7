#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("depth 1: Div, 2x3", depth1<2, 3, Div>); mc::add("depth 2: Div, 3x2", wrap<3, 2, Div>); } } r; }
