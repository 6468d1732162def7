#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("depth 1: Had, 3 elements", depth1<3, Had>); } } r; }
