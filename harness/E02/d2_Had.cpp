#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("depth 2: Had, 3x3", depth2<3, 3, Had>); } } r; }
