#include "random.h"
namespace g09 { namespace {
struct R { R() {
mc::add("vectors double", vectors<double>);
mc::add("vectors float", vectors<float>);
mc::add("vectors int", vectors<int>);
mc::add("vectors long", vectors<long>);
mc::add("vectors short", vectors<short>);
mc::add("matrices double fixed<2, 3> 2x3 row_major", [] { matrices_n<matrix<double, fixed<2, 3>, col_basis, row_major>>(2, 3); });
mc::add("matrices double fixed<2, 3> 2x3 col_major", [] { matrices_n<matrix<double, fixed<2, 3>, row_basis, col_major>>(2, 3); });
mc::add("matrices double dynamic<> 3x2 row_major", [] { matrices_n<matrix<double, dynamic<>, col_basis, row_major>>(3, 2); });
mc::add("matrices double dynamic<> 3x2 col_major", [] { matrices_n<matrix<double, dynamic<>, row_basis, col_major>>(3, 2); });
mc::add("matrices double dynamic<> 0x0 row_major", [] { matrices_n<matrix<double, dynamic<>, col_basis, row_major>>(0, 0); });
mc::add("matrices double dynamic<> 0x0 col_major", [] { matrices_n<matrix<double, dynamic<>, row_basis, col_major>>(0, 0); });
mc::add("matrices double dynamic<> 1x4 row_major", [] { matrices_n<matrix<double, dynamic<>, col_basis, row_major>>(1, 4); });
mc::add("matrices double dynamic<> 1x4 col_major", [] { matrices_n<matrix<double, dynamic<>, row_basis, col_major>>(1, 4); });
mc::add("matrices double external<2, 2> 2x2 row_major", [] { matrices_n<matrix<double, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("matrices double external<2, 2> 2x2 col_major", [] { matrices_n<matrix<double, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("matrices double external<> 3x3 row_major", [] { matrices_n<matrix<double, external<>, col_basis, row_major>>(3, 3); });
mc::add("matrices double external<> 3x3 col_major", [] { matrices_n<matrix<double, external<>, row_basis, col_major>>(3, 3); });
mc::add("matrices float fixed<2, 3> 2x3 row_major", [] { matrices_n<matrix<float, fixed<2, 3>, col_basis, row_major>>(2, 3); });
mc::add("matrices float fixed<2, 3> 2x3 col_major", [] { matrices_n<matrix<float, fixed<2, 3>, row_basis, col_major>>(2, 3); });
mc::add("matrices float dynamic<> 3x2 row_major", [] { matrices_n<matrix<float, dynamic<>, col_basis, row_major>>(3, 2); });
mc::add("matrices float dynamic<> 3x2 col_major", [] { matrices_n<matrix<float, dynamic<>, row_basis, col_major>>(3, 2); });
mc::add("matrices float dynamic<> 0x0 row_major", [] { matrices_n<matrix<float, dynamic<>, col_basis, row_major>>(0, 0); });
mc::add("matrices float dynamic<> 0x0 col_major", [] { matrices_n<matrix<float, dynamic<>, row_basis, col_major>>(0, 0); });
mc::add("matrices float dynamic<> 1x4 row_major", [] { matrices_n<matrix<float, dynamic<>, col_basis, row_major>>(1, 4); });
mc::add("matrices float dynamic<> 1x4 col_major", [] { matrices_n<matrix<float, dynamic<>, row_basis, col_major>>(1, 4); });
mc::add("matrices float external<2, 2> 2x2 row_major", [] { matrices_n<matrix<float, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("matrices float external<2, 2> 2x2 col_major", [] { matrices_n<matrix<float, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("matrices float external<> 3x3 row_major", [] { matrices_n<matrix<float, external<>, col_basis, row_major>>(3, 3); });
mc::add("matrices float external<> 3x3 col_major", [] { matrices_n<matrix<float, external<>, row_basis, col_major>>(3, 3); });
mc::add("matrices int fixed<2, 3> 2x3 row_major", [] { matrices_n<matrix<int, fixed<2, 3>, col_basis, row_major>>(2, 3); });
mc::add("matrices int fixed<2, 3> 2x3 col_major", [] { matrices_n<matrix<int, fixed<2, 3>, row_basis, col_major>>(2, 3); });
mc::add("matrices int dynamic<> 3x2 row_major", [] { matrices_n<matrix<int, dynamic<>, col_basis, row_major>>(3, 2); });
mc::add("matrices int dynamic<> 3x2 col_major", [] { matrices_n<matrix<int, dynamic<>, row_basis, col_major>>(3, 2); });
mc::add("matrices int dynamic<> 0x0 row_major", [] { matrices_n<matrix<int, dynamic<>, col_basis, row_major>>(0, 0); });
mc::add("matrices int dynamic<> 0x0 col_major", [] { matrices_n<matrix<int, dynamic<>, row_basis, col_major>>(0, 0); });
mc::add("matrices int dynamic<> 1x4 row_major", [] { matrices_n<matrix<int, dynamic<>, col_basis, row_major>>(1, 4); });
mc::add("matrices int dynamic<> 1x4 col_major", [] { matrices_n<matrix<int, dynamic<>, row_basis, col_major>>(1, 4); });
mc::add("matrices int external<2, 2> 2x2 row_major", [] { matrices_n<matrix<int, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("matrices int external<2, 2> 2x2 col_major", [] { matrices_n<matrix<int, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("matrices int external<> 3x3 row_major", [] { matrices_n<matrix<int, external<>, col_basis, row_major>>(3, 3); });
mc::add("matrices int external<> 3x3 col_major", [] { matrices_n<matrix<int, external<>, row_basis, col_major>>(3, 3); });
} } r; } }
