#include "inplace.h"
namespace { using namespace e08; struct R { R() {
  mc::add("quaternions double ip", quaternions<quaternion<double, fixed<>, imaginary_first, positive_cross>>);
  mc::add("quaternions double rn", quaternions<quaternion<double, fixed<>, real_first, negative_cross>>);
  mc::add("quaternions float in", quaternions<quaternion<float, fixed<>, imaginary_first, negative_cross>>);
  mc::add("quaternions float rp", quaternions<quaternion<float, fixed<>, real_first, positive_cross>>);
} } r; }
