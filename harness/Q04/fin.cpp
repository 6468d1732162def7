#include "euler.h"
namespace { struct R { R() { using namespace q04; using namespace cml;
using Q = quaternion<float, fixed<>, imaginary_first, negative_cross>;
const std::string n = "float imaginary_first negative_cross ";
mc::add("round trip 3 row_basis row_major " + n, round_trip3<Q, matrix<float, fixed<3,3>, row_basis, row_major>>);
mc::add("foreign row_basis row_major " + n, foreign<Q, matrix<float, fixed<3,3>, row_basis, row_major>>);
mc::add("round trip 3 row_basis col_major " + n, round_trip3<Q, matrix<float, fixed<3,3>, row_basis, col_major>>);
mc::add("foreign row_basis col_major " + n, foreign<Q, matrix<float, fixed<3,3>, row_basis, col_major>>);
mc::add("round trip 3 col_basis row_major " + n, round_trip3<Q, matrix<float, fixed<3,3>, col_basis, row_major>>);
mc::add("foreign col_basis row_major " + n, foreign<Q, matrix<float, fixed<3,3>, col_basis, row_major>>);
mc::add("round trip 3 col_basis col_major " + n, round_trip3<Q, matrix<float, fixed<3,3>, col_basis, col_major>>);
mc::add("foreign col_basis col_major " + n, foreign<Q, matrix<float, fixed<3,3>, col_basis, col_major>>);
mc::add("round trip 4 row_basis col_major " + n, round_trip4<Q, matrix<float, fixed<4,4>, row_basis, col_major>>);
mc::add("round trip dynamic row_basis col_major " + n, round_trip3<Q, matrix<float, dynamic<>, row_basis, col_major>>);
mc::add("round trip external row_basis col_major " + n, round_trip4<Q, matrix<float, external<>, row_basis, col_major>>);
mc::add("mixed row_basis col_major " + n, mixed<Q, matrix<float, fixed<3,3>, row_basis, col_major>>);
mc::add("derivatives 3 float row_basis col_major", derivatives3<float, matrix<float, fixed<3,3>, row_basis, col_major>>);
mc::add("derivatives 4 float row_basis col_major", derivatives4<float, matrix<float, fixed<4,4>, row_basis, col_major>>);
mc::add("derivatives dynamic float row_basis col_major", derivatives3<float, matrix<float, dynamic<>, row_basis, col_major>>);
mc::add("derivatives external float row_basis col_major", derivatives3<float, matrix<float, external<3,3>, row_basis, col_major>>);
} } r; }
