#include "mexpr.h"
namespace { struct R { R() { using namespace e02; mc::add("selection, 2x3", select<2, 3>); mc::add("run-time sizes", sizes); mc::add("own operand, 3x3", alias<3>); mc::add("own operand, 2x2", alias<2>); } } r; }
