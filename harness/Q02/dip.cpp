#include "explog.h"
namespace { struct R { R() { using namespace q02; using namespace cml;
mc::add("both ways quaternion<double, fixed<>, imaginary_first, positive_cross>", both_ways<quaternion<double, fixed<>, imaginary_first, positive_cross>>);
mc::add("subgroups quaternion<double, fixed<>, imaginary_first, positive_cross>", subgroups<quaternion<double, fixed<>, imaginary_first, positive_cross>>);
} } r; }
