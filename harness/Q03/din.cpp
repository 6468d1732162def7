#include "forms.h"
namespace { struct R { R() { using namespace q03; using namespace cml;
using Q = quaternion<double, fixed<>, imaginary_first, negative_cross>;
const std::string n = "double imaginary_first negative_cross ";
mc::add("world " + n, world<Q>);
mc::add("chain " + n + "3 row_basis row_major", chain3<Q, matrix<double, fixed<3,3>, row_basis, row_major>>);
mc::add("chain " + n + "4 row_basis row_major", chain4<Q, matrix<double, fixed<4,4>, row_basis, row_major>>);
mc::add("tolerance " + n + "row_basis row_major", tolerance<Q, matrix<double, fixed<3,3>, row_basis, row_major>>);
mc::add("pairs " + n + "row_basis row_major", pairs<Q, matrix<double, fixed<3,3>, row_basis, row_major>>);
mc::add("chain " + n + "3 row_basis col_major", chain3<Q, matrix<double, fixed<3,3>, row_basis, col_major>>);
mc::add("chain " + n + "4 row_basis col_major", chain4<Q, matrix<double, fixed<4,4>, row_basis, col_major>>);
mc::add("tolerance " + n + "row_basis col_major", tolerance<Q, matrix<double, fixed<3,3>, row_basis, col_major>>);
mc::add("pairs " + n + "row_basis col_major", pairs<Q, matrix<double, fixed<3,3>, row_basis, col_major>>);
mc::add("chain " + n + "3 col_basis row_major", chain3<Q, matrix<double, fixed<3,3>, col_basis, row_major>>);
mc::add("chain " + n + "4 col_basis row_major", chain4<Q, matrix<double, fixed<4,4>, col_basis, row_major>>);
mc::add("tolerance " + n + "col_basis row_major", tolerance<Q, matrix<double, fixed<3,3>, col_basis, row_major>>);
mc::add("pairs " + n + "col_basis row_major", pairs<Q, matrix<double, fixed<3,3>, col_basis, row_major>>);
mc::add("chain " + n + "3 col_basis col_major", chain3<Q, matrix<double, fixed<3,3>, col_basis, col_major>>);
mc::add("chain " + n + "4 col_basis col_major", chain4<Q, matrix<double, fixed<4,4>, col_basis, col_major>>);
mc::add("tolerance " + n + "col_basis col_major", tolerance<Q, matrix<double, fixed<3,3>, col_basis, col_major>>);
mc::add("pairs " + n + "col_basis col_major", pairs<Q, matrix<double, fixed<3,3>, col_basis, col_major>>);
mc::add("pairs 4x4 " + n + "row_basis col_major", pairs<Q, matrix<double, fixed<4,4>, row_basis, col_major>>);
mc::add("chain dynamic " + n, chain3<Q, matrix<double, dynamic<>, row_basis, col_major>>);
mc::add("chain dynamic 4 " + n, chain4<Q, matrix<double, dynamic<>, row_basis, col_major>>);
mc::add("chain external " + n, chain3<Q, matrix<double, external<3,3>, row_basis, col_major>>);
mc::add("chain external dynamic " + n, chain4<Q, matrix<double, external<>, row_basis, col_major>>);
mc::add("chain mixed " + n, chain3<Q, matrix<float, fixed<3,3>, row_basis, col_major>>);
} } r; }
