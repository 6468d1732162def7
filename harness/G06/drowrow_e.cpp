#include "affine.h"
namespace g06 { namespace {
struct R { R() { const std::string n = "double row_basis row_major";
mc::add("concat 2x2 of 2D " + n, [] { concat_n<matrix<double, fixed<2, 2>, row_basis, row_major>, matrix<double, fixed<2, 2>, row_basis, row_major>, 2>(2); });
mc::add("concat mixed 2x2 of 2D " + n, [] { concat_n<matrix<double, dynamic<>, row_basis, row_major>, matrix<float, fixed<2, 2>, row_basis, row_major>, 2>(2); });
mc::add("concat 3x3 of 2D " + n, [] { concat_n<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, 2>(3); });
mc::add("concat mixed 3x3 of 2D " + n, [] { concat_n<matrix<double, dynamic<>, row_basis, row_major>, matrix<float, fixed<3, 3>, row_basis, row_major>, 2>(3); });
mc::add("concat 3x3 of 3D " + n, [] { concat_n<matrix<double, fixed<3, 3>, row_basis, row_major>, matrix<double, fixed<3, 3>, row_basis, row_major>, 3>(3); });
mc::add("concat mixed 3x3 of 3D " + n, [] { concat_n<matrix<double, dynamic<>, row_basis, row_major>, matrix<float, fixed<3, 3>, row_basis, row_major>, 3>(3); });
mc::add("concat 4x4 of 3D " + n, [] { concat_n<matrix<double, fixed<4, 4>, row_basis, row_major>, matrix<double, fixed<4, 4>, row_basis, row_major>, 3>(4); });
mc::add("concat mixed 4x4 of 3D " + n, [] { concat_n<matrix<double, dynamic<>, row_basis, row_major>, matrix<float, fixed<4, 4>, row_basis, row_major>, 3>(4); });
mc::add("rigid inverse 1 square " + n, [] { rigid_inverse<matrix<double, fixed<2, 2>, row_basis, row_major>>(2, 2, 1); });
mc::add("rigid inverse 1 rectangular " + n, [] { rigid_inverse<matrix<double, fixed<2, 1>, row_basis, row_major>>(2, 1, 1); });
mc::add("rigid inverse 1 dynamic square " + n, [] { rigid_inverse<matrix<double, dynamic<>, row_basis, row_major>>(2, 2, 1); });
mc::add("rigid inverse 1 external dynamic rectangular " + n, [] { rigid_inverse<matrix<double, external<>, row_basis, row_major>>(2, 1, 1); });
mc::add("rigid inverse 2 square " + n, [] { rigid_inverse<matrix<double, fixed<3, 3>, row_basis, row_major>>(3, 3, 2); });
mc::add("rigid inverse 2 rectangular " + n, [] { rigid_inverse<matrix<double, fixed<3, 2>, row_basis, row_major>>(3, 2, 2); });
mc::add("rigid inverse 2 dynamic square " + n, [] { rigid_inverse<matrix<double, dynamic<>, row_basis, row_major>>(3, 3, 2); });
mc::add("rigid inverse 2 external dynamic rectangular " + n, [] { rigid_inverse<matrix<double, external<>, row_basis, row_major>>(3, 2, 2); });
mc::add("rigid inverse 3 square " + n, [] { rigid_inverse<matrix<double, fixed<4, 4>, row_basis, row_major>>(4, 4, 3); });
mc::add("rigid inverse 3 rectangular " + n, [] { rigid_inverse<matrix<double, fixed<4, 3>, row_basis, row_major>>(4, 3, 3); });
mc::add("rigid inverse 3 dynamic square " + n, [] { rigid_inverse<matrix<double, dynamic<>, row_basis, row_major>>(4, 4, 3); });
mc::add("rigid inverse 3 external dynamic rectangular " + n, [] { rigid_inverse<matrix<double, external<>, row_basis, row_major>>(4, 3, 3); });
mc::add("rigid inverse 4 square " + n, [] { rigid_inverse<matrix<double, fixed<5, 5>, row_basis, row_major>>(5, 5, 4); });
mc::add("rigid inverse 4 rectangular " + n, [] { rigid_inverse<matrix<double, fixed<5, 4>, row_basis, row_major>>(5, 4, 4); });
mc::add("rigid inverse 4 dynamic square " + n, [] { rigid_inverse<matrix<double, dynamic<>, row_basis, row_major>>(5, 5, 4); });
mc::add("rigid inverse 4 external dynamic rectangular " + n, [] { rigid_inverse<matrix<double, external<>, row_basis, row_major>>(5, 4, 4); });
} } r; } }
