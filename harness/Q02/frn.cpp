#include "explog.h"
namespace { struct R { R() { using namespace q02; using namespace cml;
mc::add("both ways quaternion<float, fixed<>, real_first, negative_cross>", both_ways<quaternion<float, fixed<>, real_first, negative_cross>>);
mc::add("subgroups quaternion<float, fixed<>, real_first, negative_cross>", subgroups<quaternion<float, fixed<>, real_first, negative_cross>>);
} } r; }
