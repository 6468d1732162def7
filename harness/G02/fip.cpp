#include "frames.h"
namespace { struct R { R() { using namespace g02; using namespace cml;
using Q = quaternion<float, fixed<>, imaginary_first, positive_cross>;
const std::string n = "float imaginary_first positive_cross ";
mc::add("frames fixed<3,3> " + n, frames3<Q, matrix<float, fixed<3,3>, row_basis, row_major>>);
mc::add("frames fixed<4,4> " + n, frames4<Q, matrix<float, fixed<4,4>, row_basis, row_major>>);
mc::add("frames dynamic<> " + n, frames3<Q, matrix<float, dynamic<>, row_basis, row_major>>);
mc::add("frames external<4,4> " + n, frames4<Q, matrix<float, external<4,4>, row_basis, row_major>>);
} } r; }
