#include "vexpr.h"
namespace { struct R { R() { using namespace e01; mc::add("subvector, 3 elements", subs<3>); mc::add("run-time sizes", sizes); mc::add("own operand, 3 elements", alias<3>); mc::add("own operand, 2 elements", alias<2>); } } r; }
