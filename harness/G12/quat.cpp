#include "print.h"
namespace g12 { namespace {
struct R { R() {
mc::add("mixed", [] { mixed(); });
mc::add("quaternion<double, fixed<>, real_first, positive_cross>", [] { quat<quaternion<double, fixed<>, real_first, positive_cross>>(); });
mc::add("quaternion<double, fixed<>, real_first, negative_cross>", [] { quat<quaternion<double, fixed<>, real_first, negative_cross>>(); });
mc::add("quaternion<double, fixed<>, imaginary_first, positive_cross>", [] { quat<quaternion<double, fixed<>, imaginary_first, positive_cross>>(); });
mc::add("quaternion<double, fixed<>, imaginary_first, negative_cross>", [] { quat<quaternion<double, fixed<>, imaginary_first, negative_cross>>(); });
mc::add("quaternion<float, fixed<>, real_first, positive_cross>", [] { quat<quaternion<float, fixed<>, real_first, positive_cross>>(); });
mc::add("quaternion<float, fixed<>, real_first, negative_cross>", [] { quat<quaternion<float, fixed<>, real_first, negative_cross>>(); });
mc::add("quaternion<float, fixed<>, imaginary_first, positive_cross>", [] { quat<quaternion<float, fixed<>, imaginary_first, positive_cross>>(); });
mc::add("quaternion<float, fixed<>, imaginary_first, negative_cross>", [] { quat<quaternion<float, fixed<>, imaginary_first, negative_cross>>(); });
mc::add("quaternion<long double, fixed<>, real_first, positive_cross>", [] { quat<quaternion<long double, fixed<>, real_first, positive_cross>>(); });
mc::add("quaternion<long double, fixed<>, real_first, negative_cross>", [] { quat<quaternion<long double, fixed<>, real_first, negative_cross>>(); });
mc::add("quaternion<long double, fixed<>, imaginary_first, positive_cross>", [] { quat<quaternion<long double, fixed<>, imaginary_first, positive_cross>>(); });
mc::add("quaternion<long double, fixed<>, imaginary_first, negative_cross>", [] { quat<quaternion<long double, fixed<>, imaginary_first, negative_cross>>(); });
} } r; } }
