#include "euler.h"
namespace { struct R { R() { using namespace q04; using namespace cml;
using Q = quaternion<double, fixed<>, real_first, negative_cross>;
const std::string n = "double real_first negative_cross ";
mc::add("round trip 3 row_basis row_major " + n, round_trip3<Q, matrix<double, fixed<3,3>, row_basis, row_major>>);
mc::add("foreign row_basis row_major " + n, foreign<Q, matrix<double, fixed<3,3>, row_basis, row_major>>);
mc::add("round trip 3 row_basis col_major " + n, round_trip3<Q, matrix<double, fixed<3,3>, row_basis, col_major>>);
mc::add("foreign row_basis col_major " + n, foreign<Q, matrix<double, fixed<3,3>, row_basis, col_major>>);
mc::add("round trip 3 col_basis row_major " + n, round_trip3<Q, matrix<double, fixed<3,3>, col_basis, row_major>>);
mc::add("foreign col_basis row_major " + n, foreign<Q, matrix<double, fixed<3,3>, col_basis, row_major>>);
mc::add("round trip 3 col_basis col_major " + n, round_trip3<Q, matrix<double, fixed<3,3>, col_basis, col_major>>);
mc::add("foreign col_basis col_major " + n, foreign<Q, matrix<double, fixed<3,3>, col_basis, col_major>>);
mc::add("round trip 4 col_basis col_major " + n, round_trip4<Q, matrix<double, fixed<4,4>, col_basis, col_major>>);
mc::add("round trip dynamic col_basis col_major " + n, round_trip3<Q, matrix<double, dynamic<>, col_basis, col_major>>);
mc::add("round trip external col_basis col_major " + n, round_trip4<Q, matrix<double, external<>, col_basis, col_major>>);
mc::add("mixed col_basis col_major " + n, mixed<Q, matrix<double, fixed<3,3>, col_basis, col_major>>);
mc::add("derivatives 3 double col_basis col_major", derivatives3<double, matrix<double, fixed<3,3>, col_basis, col_major>>);
mc::add("derivatives 4 double col_basis col_major", derivatives4<double, matrix<double, fixed<4,4>, col_basis, col_major>>);
mc::add("derivatives dynamic double col_basis col_major", derivatives3<double, matrix<double, dynamic<>, col_basis, col_major>>);
mc::add("derivatives external double col_basis col_major", derivatives3<double, matrix<double, external<3,3>, col_basis, col_major>>);
} } r; }
