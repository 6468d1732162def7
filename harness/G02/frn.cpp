#include "frames.h"
namespace { struct R { R() { using namespace g02; using namespace cml;
using Q = quaternion<float, fixed<>, real_first, negative_cross>;
const std::string n = "float real_first negative_cross ";
mc::add("frames fixed<3,3> " + n, frames3<Q, matrix<float, fixed<3,3>, col_basis, col_major>>);
mc::add("frames fixed<4,4> " + n, frames4<Q, matrix<float, fixed<4,4>, col_basis, col_major>>);
mc::add("frames dynamic<> " + n, frames3<Q, matrix<float, dynamic<>, col_basis, col_major>>);
mc::add("frames external<4,4> " + n, frames4<Q, matrix<float, external<4,4>, col_basis, col_major>>);
} } r; }
