#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("depth 1: Plus, 2x3", depth1<2, 3, Plus>); } } r; }
