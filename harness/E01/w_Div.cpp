#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("depth 1: Div, 3 elements", depth1<3, Div>); mc::add("depth 1: Div, 4 elements", depth1<4, Div>); mc::add("depth 2: Div, 3 elements", wrap<3, Div>); } } r; }
