#include "print.h"
namespace g12 { namespace {
struct R { R() {
mc::add("matrix<long, dynamic<>, row_basis, col_major> 0x0", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(0, 0); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 0x1", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(0, 1); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 0x2", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(0, 2); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 0x3", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(0, 3); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 0x4", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(0, 4); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 1x0", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(1, 0); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 1x1", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(1, 1); });
mc::add("matrix<long, fixed<1, 1>, row_basis, col_major> 1x1", [] { mat_n<matrix<long, fixed<1, 1>, row_basis, col_major>>(1, 1); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 1x2", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(1, 2); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 1x3", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(1, 3); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 1x4", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(1, 4); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 2x0", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(2, 0); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 2x1", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(2, 1); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 2x2", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(2, 2); });
mc::add("matrix<long, fixed<2, 2>, row_basis, col_major> 2x2", [] { mat_n<matrix<long, fixed<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 2x3", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(2, 3); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 2x4", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(2, 4); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 3x0", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(3, 0); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 3x1", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(3, 1); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 3x2", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(3, 2); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 3x3", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(3, 3); });
mc::add("matrix<long, fixed<3, 3>, row_basis, col_major> 3x3", [] { mat_n<matrix<long, fixed<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 3x4", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(3, 4); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 4x0", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(4, 0); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 4x1", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(4, 1); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 4x2", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(4, 2); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 4x3", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(4, 3); });
mc::add("matrix<long, dynamic<>, row_basis, col_major> 4x4", [] { mat_n<matrix<long, dynamic<>, row_basis, col_major>>(4, 4); });
mc::add("matrix<long, fixed<4, 4>, row_basis, col_major> 4x4", [] { mat_n<matrix<long, fixed<4, 4>, row_basis, col_major>>(4, 4); });
} } r; } }
