#include "named.h"
namespace g11 { namespace {
struct R { R() {
mc::add("skew matrix<int, fixed<2, 2>, row_basis, row_major> 2x2", [] { skew_n<matrix<int, fixed<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<int, fixed<2, 2>, row_basis, row_major> 2x2", [] { trace_n<matrix<int, fixed<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<int, dynamic<>, row_basis, row_major> 2x2", [] { skew_n<matrix<int, dynamic<>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<int, dynamic<>, row_basis, row_major> 2x2", [] { trace_n<matrix<int, dynamic<>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<int, external<2, 2>, row_basis, row_major> 2x2", [] { skew_n<matrix<int, external<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<int, external<2, 2>, row_basis, row_major> 2x2", [] { trace_n<matrix<int, external<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<int, external<>, row_basis, row_major> 2x2", [] { skew_n<matrix<int, external<>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<int, external<>, row_basis, row_major> 2x2", [] { trace_n<matrix<int, external<>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<int, fixed<3, 3>, row_basis, row_major> 3x3", [] { skew_n<matrix<int, fixed<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<int, fixed<3, 3>, row_basis, row_major> 3x3", [] { trace_n<matrix<int, fixed<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<int, dynamic<>, row_basis, row_major> 3x3", [] { skew_n<matrix<int, dynamic<>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<int, dynamic<>, row_basis, row_major> 3x3", [] { trace_n<matrix<int, dynamic<>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<int, external<3, 3>, row_basis, row_major> 3x3", [] { skew_n<matrix<int, external<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<int, external<3, 3>, row_basis, row_major> 3x3", [] { trace_n<matrix<int, external<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<int, external<>, row_basis, row_major> 3x3", [] { skew_n<matrix<int, external<>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<int, external<>, row_basis, row_major> 3x3", [] { trace_n<matrix<int, external<>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<int, fixed<3, 4>, row_basis, row_major> 3x4", [] { skew_n<matrix<int, fixed<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<int, fixed<3, 4>, row_basis, row_major> 3x4", [] { trace_n<matrix<int, fixed<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<int, dynamic<>, row_basis, row_major> 3x4", [] { skew_n<matrix<int, dynamic<>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<int, dynamic<>, row_basis, row_major> 3x4", [] { trace_n<matrix<int, dynamic<>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<int, external<3, 4>, row_basis, row_major> 3x4", [] { skew_n<matrix<int, external<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<int, external<3, 4>, row_basis, row_major> 3x4", [] { trace_n<matrix<int, external<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<int, external<>, row_basis, row_major> 3x4", [] { skew_n<matrix<int, external<>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<int, external<>, row_basis, row_major> 3x4", [] { trace_n<matrix<int, external<>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<int, fixed<4, 4>, row_basis, row_major> 4x4", [] { skew_n<matrix<int, fixed<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<int, fixed<4, 4>, row_basis, row_major> 4x4", [] { trace_n<matrix<int, fixed<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<int, dynamic<>, row_basis, row_major> 4x4", [] { skew_n<matrix<int, dynamic<>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<int, dynamic<>, row_basis, row_major> 4x4", [] { trace_n<matrix<int, dynamic<>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<int, external<4, 4>, row_basis, row_major> 4x4", [] { skew_n<matrix<int, external<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<int, external<4, 4>, row_basis, row_major> 4x4", [] { trace_n<matrix<int, external<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<int, external<>, row_basis, row_major> 4x4", [] { skew_n<matrix<int, external<>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<int, external<>, row_basis, row_major> 4x4", [] { trace_n<matrix<int, external<>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<int, fixed<2, 2>, row_basis, col_major> 2x2", [] { skew_n<matrix<int, fixed<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<int, fixed<2, 2>, row_basis, col_major> 2x2", [] { trace_n<matrix<int, fixed<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<int, dynamic<>, row_basis, col_major> 2x2", [] { skew_n<matrix<int, dynamic<>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<int, dynamic<>, row_basis, col_major> 2x2", [] { trace_n<matrix<int, dynamic<>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<int, external<2, 2>, row_basis, col_major> 2x2", [] { skew_n<matrix<int, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<int, external<2, 2>, row_basis, col_major> 2x2", [] { trace_n<matrix<int, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<int, external<>, row_basis, col_major> 2x2", [] { skew_n<matrix<int, external<>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<int, external<>, row_basis, col_major> 2x2", [] { trace_n<matrix<int, external<>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<int, fixed<3, 3>, row_basis, col_major> 3x3", [] { skew_n<matrix<int, fixed<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<int, fixed<3, 3>, row_basis, col_major> 3x3", [] { trace_n<matrix<int, fixed<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<int, dynamic<>, row_basis, col_major> 3x3", [] { skew_n<matrix<int, dynamic<>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<int, dynamic<>, row_basis, col_major> 3x3", [] { trace_n<matrix<int, dynamic<>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<int, external<3, 3>, row_basis, col_major> 3x3", [] { skew_n<matrix<int, external<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<int, external<3, 3>, row_basis, col_major> 3x3", [] { trace_n<matrix<int, external<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<int, external<>, row_basis, col_major> 3x3", [] { skew_n<matrix<int, external<>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<int, external<>, row_basis, col_major> 3x3", [] { trace_n<matrix<int, external<>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<int, fixed<3, 4>, row_basis, col_major> 3x4", [] { skew_n<matrix<int, fixed<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<int, fixed<3, 4>, row_basis, col_major> 3x4", [] { trace_n<matrix<int, fixed<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<int, dynamic<>, row_basis, col_major> 3x4", [] { skew_n<matrix<int, dynamic<>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<int, dynamic<>, row_basis, col_major> 3x4", [] { trace_n<matrix<int, dynamic<>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<int, external<3, 4>, row_basis, col_major> 3x4", [] { skew_n<matrix<int, external<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<int, external<3, 4>, row_basis, col_major> 3x4", [] { trace_n<matrix<int, external<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<int, external<>, row_basis, col_major> 3x4", [] { skew_n<matrix<int, external<>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<int, external<>, row_basis, col_major> 3x4", [] { trace_n<matrix<int, external<>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<int, fixed<4, 4>, row_basis, col_major> 4x4", [] { skew_n<matrix<int, fixed<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<int, fixed<4, 4>, row_basis, col_major> 4x4", [] { trace_n<matrix<int, fixed<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<int, dynamic<>, row_basis, col_major> 4x4", [] { skew_n<matrix<int, dynamic<>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<int, dynamic<>, row_basis, col_major> 4x4", [] { trace_n<matrix<int, dynamic<>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<int, external<4, 4>, row_basis, col_major> 4x4", [] { skew_n<matrix<int, external<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<int, external<4, 4>, row_basis, col_major> 4x4", [] { trace_n<matrix<int, external<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<int, external<>, row_basis, col_major> 4x4", [] { skew_n<matrix<int, external<>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<int, external<>, row_basis, col_major> 4x4", [] { trace_n<matrix<int, external<>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<int, fixed<2, 2>, col_basis, row_major> 2x2", [] { skew_n<matrix<int, fixed<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<int, fixed<2, 2>, col_basis, row_major> 2x2", [] { trace_n<matrix<int, fixed<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<int, dynamic<>, col_basis, row_major> 2x2", [] { skew_n<matrix<int, dynamic<>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<int, dynamic<>, col_basis, row_major> 2x2", [] { trace_n<matrix<int, dynamic<>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<int, external<2, 2>, col_basis, row_major> 2x2", [] { skew_n<matrix<int, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<int, external<2, 2>, col_basis, row_major> 2x2", [] { trace_n<matrix<int, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<int, external<>, col_basis, row_major> 2x2", [] { skew_n<matrix<int, external<>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<int, external<>, col_basis, row_major> 2x2", [] { trace_n<matrix<int, external<>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<int, fixed<3, 3>, col_basis, row_major> 3x3", [] { skew_n<matrix<int, fixed<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<int, fixed<3, 3>, col_basis, row_major> 3x3", [] { trace_n<matrix<int, fixed<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<int, dynamic<>, col_basis, row_major> 3x3", [] { skew_n<matrix<int, dynamic<>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<int, dynamic<>, col_basis, row_major> 3x3", [] { trace_n<matrix<int, dynamic<>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<int, external<3, 3>, col_basis, row_major> 3x3", [] { skew_n<matrix<int, external<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<int, external<3, 3>, col_basis, row_major> 3x3", [] { trace_n<matrix<int, external<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<int, external<>, col_basis, row_major> 3x3", [] { skew_n<matrix<int, external<>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<int, external<>, col_basis, row_major> 3x3", [] { trace_n<matrix<int, external<>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<int, fixed<3, 4>, col_basis, row_major> 3x4", [] { skew_n<matrix<int, fixed<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<int, fixed<3, 4>, col_basis, row_major> 3x4", [] { trace_n<matrix<int, fixed<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<int, dynamic<>, col_basis, row_major> 3x4", [] { skew_n<matrix<int, dynamic<>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<int, dynamic<>, col_basis, row_major> 3x4", [] { trace_n<matrix<int, dynamic<>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<int, external<3, 4>, col_basis, row_major> 3x4", [] { skew_n<matrix<int, external<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<int, external<3, 4>, col_basis, row_major> 3x4", [] { trace_n<matrix<int, external<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<int, external<>, col_basis, row_major> 3x4", [] { skew_n<matrix<int, external<>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<int, external<>, col_basis, row_major> 3x4", [] { trace_n<matrix<int, external<>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<int, fixed<4, 4>, col_basis, row_major> 4x4", [] { skew_n<matrix<int, fixed<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<int, fixed<4, 4>, col_basis, row_major> 4x4", [] { trace_n<matrix<int, fixed<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<int, dynamic<>, col_basis, row_major> 4x4", [] { skew_n<matrix<int, dynamic<>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<int, dynamic<>, col_basis, row_major> 4x4", [] { trace_n<matrix<int, dynamic<>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<int, external<4, 4>, col_basis, row_major> 4x4", [] { skew_n<matrix<int, external<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<int, external<4, 4>, col_basis, row_major> 4x4", [] { trace_n<matrix<int, external<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<int, external<>, col_basis, row_major> 4x4", [] { skew_n<matrix<int, external<>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<int, external<>, col_basis, row_major> 4x4", [] { trace_n<matrix<int, external<>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<int, fixed<2, 2>, col_basis, col_major> 2x2", [] { skew_n<matrix<int, fixed<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<int, fixed<2, 2>, col_basis, col_major> 2x2", [] { trace_n<matrix<int, fixed<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<int, dynamic<>, col_basis, col_major> 2x2", [] { skew_n<matrix<int, dynamic<>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<int, dynamic<>, col_basis, col_major> 2x2", [] { trace_n<matrix<int, dynamic<>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<int, external<2, 2>, col_basis, col_major> 2x2", [] { skew_n<matrix<int, external<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<int, external<2, 2>, col_basis, col_major> 2x2", [] { trace_n<matrix<int, external<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<int, external<>, col_basis, col_major> 2x2", [] { skew_n<matrix<int, external<>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<int, external<>, col_basis, col_major> 2x2", [] { trace_n<matrix<int, external<>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<int, fixed<3, 3>, col_basis, col_major> 3x3", [] { skew_n<matrix<int, fixed<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<int, fixed<3, 3>, col_basis, col_major> 3x3", [] { trace_n<matrix<int, fixed<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<int, dynamic<>, col_basis, col_major> 3x3", [] { skew_n<matrix<int, dynamic<>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<int, dynamic<>, col_basis, col_major> 3x3", [] { trace_n<matrix<int, dynamic<>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<int, external<3, 3>, col_basis, col_major> 3x3", [] { skew_n<matrix<int, external<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<int, external<3, 3>, col_basis, col_major> 3x3", [] { trace_n<matrix<int, external<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<int, external<>, col_basis, col_major> 3x3", [] { skew_n<matrix<int, external<>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<int, external<>, col_basis, col_major> 3x3", [] { trace_n<matrix<int, external<>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<int, fixed<3, 4>, col_basis, col_major> 3x4", [] { skew_n<matrix<int, fixed<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<int, fixed<3, 4>, col_basis, col_major> 3x4", [] { trace_n<matrix<int, fixed<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<int, dynamic<>, col_basis, col_major> 3x4", [] { skew_n<matrix<int, dynamic<>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<int, dynamic<>, col_basis, col_major> 3x4", [] { trace_n<matrix<int, dynamic<>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<int, external<3, 4>, col_basis, col_major> 3x4", [] { skew_n<matrix<int, external<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<int, external<3, 4>, col_basis, col_major> 3x4", [] { trace_n<matrix<int, external<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<int, external<>, col_basis, col_major> 3x4", [] { skew_n<matrix<int, external<>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<int, external<>, col_basis, col_major> 3x4", [] { trace_n<matrix<int, external<>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<int, fixed<4, 4>, col_basis, col_major> 4x4", [] { skew_n<matrix<int, fixed<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<int, fixed<4, 4>, col_basis, col_major> 4x4", [] { trace_n<matrix<int, fixed<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<int, dynamic<>, col_basis, col_major> 4x4", [] { skew_n<matrix<int, dynamic<>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<int, dynamic<>, col_basis, col_major> 4x4", [] { trace_n<matrix<int, dynamic<>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<int, external<4, 4>, col_basis, col_major> 4x4", [] { skew_n<matrix<int, external<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<int, external<4, 4>, col_basis, col_major> 4x4", [] { trace_n<matrix<int, external<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<int, external<>, col_basis, col_major> 4x4", [] { skew_n<matrix<int, external<>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<int, external<>, col_basis, col_major> 4x4", [] { trace_n<matrix<int, external<>, col_basis, col_major>>(4, 4); });
} } r; } }
