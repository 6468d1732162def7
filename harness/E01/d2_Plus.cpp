#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("depth 2: Plus, 3 elements", depth2<3, Plus>); } } r; }
