#include "named.h"
namespace g11 { namespace {
struct R { R() {
mc::add("skew matrix<float, fixed<2, 2>, row_basis, row_major> 2x2", [] { skew_n<matrix<float, fixed<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<float, fixed<2, 2>, row_basis, row_major> 2x2", [] { trace_n<matrix<float, fixed<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<float, dynamic<>, row_basis, row_major> 2x2", [] { skew_n<matrix<float, dynamic<>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<float, dynamic<>, row_basis, row_major> 2x2", [] { trace_n<matrix<float, dynamic<>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<float, external<2, 2>, row_basis, row_major> 2x2", [] { skew_n<matrix<float, external<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<float, external<2, 2>, row_basis, row_major> 2x2", [] { trace_n<matrix<float, external<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<float, external<>, row_basis, row_major> 2x2", [] { skew_n<matrix<float, external<>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<float, external<>, row_basis, row_major> 2x2", [] { trace_n<matrix<float, external<>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<float, fixed<3, 3>, row_basis, row_major> 3x3", [] { skew_n<matrix<float, fixed<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<float, fixed<3, 3>, row_basis, row_major> 3x3", [] { trace_n<matrix<float, fixed<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<float, dynamic<>, row_basis, row_major> 3x3", [] { skew_n<matrix<float, dynamic<>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<float, dynamic<>, row_basis, row_major> 3x3", [] { trace_n<matrix<float, dynamic<>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<float, external<3, 3>, row_basis, row_major> 3x3", [] { skew_n<matrix<float, external<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<float, external<3, 3>, row_basis, row_major> 3x3", [] { trace_n<matrix<float, external<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<float, external<>, row_basis, row_major> 3x3", [] { skew_n<matrix<float, external<>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<float, external<>, row_basis, row_major> 3x3", [] { trace_n<matrix<float, external<>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<float, fixed<3, 4>, row_basis, row_major> 3x4", [] { skew_n<matrix<float, fixed<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<float, fixed<3, 4>, row_basis, row_major> 3x4", [] { trace_n<matrix<float, fixed<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<float, dynamic<>, row_basis, row_major> 3x4", [] { skew_n<matrix<float, dynamic<>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<float, dynamic<>, row_basis, row_major> 3x4", [] { trace_n<matrix<float, dynamic<>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<float, external<3, 4>, row_basis, row_major> 3x4", [] { skew_n<matrix<float, external<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<float, external<3, 4>, row_basis, row_major> 3x4", [] { trace_n<matrix<float, external<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<float, external<>, row_basis, row_major> 3x4", [] { skew_n<matrix<float, external<>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<float, external<>, row_basis, row_major> 3x4", [] { trace_n<matrix<float, external<>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<float, fixed<4, 4>, row_basis, row_major> 4x4", [] { skew_n<matrix<float, fixed<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<float, fixed<4, 4>, row_basis, row_major> 4x4", [] { trace_n<matrix<float, fixed<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<float, dynamic<>, row_basis, row_major> 4x4", [] { skew_n<matrix<float, dynamic<>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<float, dynamic<>, row_basis, row_major> 4x4", [] { trace_n<matrix<float, dynamic<>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<float, external<4, 4>, row_basis, row_major> 4x4", [] { skew_n<matrix<float, external<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<float, external<4, 4>, row_basis, row_major> 4x4", [] { trace_n<matrix<float, external<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<float, external<>, row_basis, row_major> 4x4", [] { skew_n<matrix<float, external<>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<float, external<>, row_basis, row_major> 4x4", [] { trace_n<matrix<float, external<>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<float, fixed<2, 2>, row_basis, col_major> 2x2", [] { skew_n<matrix<float, fixed<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<float, fixed<2, 2>, row_basis, col_major> 2x2", [] { trace_n<matrix<float, fixed<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<float, dynamic<>, row_basis, col_major> 2x2", [] { skew_n<matrix<float, dynamic<>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<float, dynamic<>, row_basis, col_major> 2x2", [] { trace_n<matrix<float, dynamic<>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<float, external<2, 2>, row_basis, col_major> 2x2", [] { skew_n<matrix<float, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<float, external<2, 2>, row_basis, col_major> 2x2", [] { trace_n<matrix<float, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<float, external<>, row_basis, col_major> 2x2", [] { skew_n<matrix<float, external<>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<float, external<>, row_basis, col_major> 2x2", [] { trace_n<matrix<float, external<>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<float, fixed<3, 3>, row_basis, col_major> 3x3", [] { skew_n<matrix<float, fixed<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<float, fixed<3, 3>, row_basis, col_major> 3x3", [] { trace_n<matrix<float, fixed<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<float, dynamic<>, row_basis, col_major> 3x3", [] { skew_n<matrix<float, dynamic<>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<float, dynamic<>, row_basis, col_major> 3x3", [] { trace_n<matrix<float, dynamic<>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<float, external<3, 3>, row_basis, col_major> 3x3", [] { skew_n<matrix<float, external<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<float, external<3, 3>, row_basis, col_major> 3x3", [] { trace_n<matrix<float, external<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<float, external<>, row_basis, col_major> 3x3", [] { skew_n<matrix<float, external<>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<float, external<>, row_basis, col_major> 3x3", [] { trace_n<matrix<float, external<>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<float, fixed<3, 4>, row_basis, col_major> 3x4", [] { skew_n<matrix<float, fixed<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<float, fixed<3, 4>, row_basis, col_major> 3x4", [] { trace_n<matrix<float, fixed<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<float, dynamic<>, row_basis, col_major> 3x4", [] { skew_n<matrix<float, dynamic<>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<float, dynamic<>, row_basis, col_major> 3x4", [] { trace_n<matrix<float, dynamic<>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<float, external<3, 4>, row_basis, col_major> 3x4", [] { skew_n<matrix<float, external<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<float, external<3, 4>, row_basis, col_major> 3x4", [] { trace_n<matrix<float, external<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<float, external<>, row_basis, col_major> 3x4", [] { skew_n<matrix<float, external<>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<float, external<>, row_basis, col_major> 3x4", [] { trace_n<matrix<float, external<>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<float, fixed<4, 4>, row_basis, col_major> 4x4", [] { skew_n<matrix<float, fixed<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<float, fixed<4, 4>, row_basis, col_major> 4x4", [] { trace_n<matrix<float, fixed<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<float, dynamic<>, row_basis, col_major> 4x4", [] { skew_n<matrix<float, dynamic<>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<float, dynamic<>, row_basis, col_major> 4x4", [] { trace_n<matrix<float, dynamic<>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<float, external<4, 4>, row_basis, col_major> 4x4", [] { skew_n<matrix<float, external<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<float, external<4, 4>, row_basis, col_major> 4x4", [] { trace_n<matrix<float, external<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<float, external<>, row_basis, col_major> 4x4", [] { skew_n<matrix<float, external<>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<float, external<>, row_basis, col_major> 4x4", [] { trace_n<matrix<float, external<>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<float, fixed<2, 2>, col_basis, row_major> 2x2", [] { skew_n<matrix<float, fixed<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<float, fixed<2, 2>, col_basis, row_major> 2x2", [] { trace_n<matrix<float, fixed<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<float, dynamic<>, col_basis, row_major> 2x2", [] { skew_n<matrix<float, dynamic<>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<float, dynamic<>, col_basis, row_major> 2x2", [] { trace_n<matrix<float, dynamic<>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<float, external<2, 2>, col_basis, row_major> 2x2", [] { skew_n<matrix<float, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<float, external<2, 2>, col_basis, row_major> 2x2", [] { trace_n<matrix<float, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<float, external<>, col_basis, row_major> 2x2", [] { skew_n<matrix<float, external<>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<float, external<>, col_basis, row_major> 2x2", [] { trace_n<matrix<float, external<>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<float, fixed<3, 3>, col_basis, row_major> 3x3", [] { skew_n<matrix<float, fixed<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<float, fixed<3, 3>, col_basis, row_major> 3x3", [] { trace_n<matrix<float, fixed<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<float, dynamic<>, col_basis, row_major> 3x3", [] { skew_n<matrix<float, dynamic<>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<float, dynamic<>, col_basis, row_major> 3x3", [] { trace_n<matrix<float, dynamic<>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<float, external<3, 3>, col_basis, row_major> 3x3", [] { skew_n<matrix<float, external<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<float, external<3, 3>, col_basis, row_major> 3x3", [] { trace_n<matrix<float, external<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<float, external<>, col_basis, row_major> 3x3", [] { skew_n<matrix<float, external<>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<float, external<>, col_basis, row_major> 3x3", [] { trace_n<matrix<float, external<>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<float, fixed<3, 4>, col_basis, row_major> 3x4", [] { skew_n<matrix<float, fixed<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<float, fixed<3, 4>, col_basis, row_major> 3x4", [] { trace_n<matrix<float, fixed<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<float, dynamic<>, col_basis, row_major> 3x4", [] { skew_n<matrix<float, dynamic<>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<float, dynamic<>, col_basis, row_major> 3x4", [] { trace_n<matrix<float, dynamic<>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<float, external<3, 4>, col_basis, row_major> 3x4", [] { skew_n<matrix<float, external<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<float, external<3, 4>, col_basis, row_major> 3x4", [] { trace_n<matrix<float, external<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<float, external<>, col_basis, row_major> 3x4", [] { skew_n<matrix<float, external<>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<float, external<>, col_basis, row_major> 3x4", [] { trace_n<matrix<float, external<>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<float, fixed<4, 4>, col_basis, row_major> 4x4", [] { skew_n<matrix<float, fixed<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<float, fixed<4, 4>, col_basis, row_major> 4x4", [] { trace_n<matrix<float, fixed<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<float, dynamic<>, col_basis, row_major> 4x4", [] { skew_n<matrix<float, dynamic<>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<float, dynamic<>, col_basis, row_major> 4x4", [] { trace_n<matrix<float, dynamic<>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<float, external<4, 4>, col_basis, row_major> 4x4", [] { skew_n<matrix<float, external<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<float, external<4, 4>, col_basis, row_major> 4x4", [] { trace_n<matrix<float, external<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<float, external<>, col_basis, row_major> 4x4", [] { skew_n<matrix<float, external<>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<float, external<>, col_basis, row_major> 4x4", [] { trace_n<matrix<float, external<>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<float, fixed<2, 2>, col_basis, col_major> 2x2", [] { skew_n<matrix<float, fixed<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<float, fixed<2, 2>, col_basis, col_major> 2x2", [] { trace_n<matrix<float, fixed<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<float, dynamic<>, col_basis, col_major> 2x2", [] { skew_n<matrix<float, dynamic<>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<float, dynamic<>, col_basis, col_major> 2x2", [] { trace_n<matrix<float, dynamic<>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<float, external<2, 2>, col_basis, col_major> 2x2", [] { skew_n<matrix<float, external<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<float, external<2, 2>, col_basis, col_major> 2x2", [] { trace_n<matrix<float, external<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<float, external<>, col_basis, col_major> 2x2", [] { skew_n<matrix<float, external<>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<float, external<>, col_basis, col_major> 2x2", [] { trace_n<matrix<float, external<>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<float, fixed<3, 3>, col_basis, col_major> 3x3", [] { skew_n<matrix<float, fixed<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<float, fixed<3, 3>, col_basis, col_major> 3x3", [] { trace_n<matrix<float, fixed<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<float, dynamic<>, col_basis, col_major> 3x3", [] { skew_n<matrix<float, dynamic<>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<float, dynamic<>, col_basis, col_major> 3x3", [] { trace_n<matrix<float, dynamic<>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<float, external<3, 3>, col_basis, col_major> 3x3", [] { skew_n<matrix<float, external<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<float, external<3, 3>, col_basis, col_major> 3x3", [] { trace_n<matrix<float, external<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<float, external<>, col_basis, col_major> 3x3", [] { skew_n<matrix<float, external<>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<float, external<>, col_basis, col_major> 3x3", [] { trace_n<matrix<float, external<>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<float, fixed<3, 4>, col_basis, col_major> 3x4", [] { skew_n<matrix<float, fixed<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<float, fixed<3, 4>, col_basis, col_major> 3x4", [] { trace_n<matrix<float, fixed<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<float, dynamic<>, col_basis, col_major> 3x4", [] { skew_n<matrix<float, dynamic<>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<float, dynamic<>, col_basis, col_major> 3x4", [] { trace_n<matrix<float, dynamic<>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<float, external<3, 4>, col_basis, col_major> 3x4", [] { skew_n<matrix<float, external<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<float, external<3, 4>, col_basis, col_major> 3x4", [] { trace_n<matrix<float, external<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<float, external<>, col_basis, col_major> 3x4", [] { skew_n<matrix<float, external<>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<float, external<>, col_basis, col_major> 3x4", [] { trace_n<matrix<float, external<>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<float, fixed<4, 4>, col_basis, col_major> 4x4", [] { skew_n<matrix<float, fixed<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<float, fixed<4, 4>, col_basis, col_major> 4x4", [] { trace_n<matrix<float, fixed<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<float, dynamic<>, col_basis, col_major> 4x4", [] { skew_n<matrix<float, dynamic<>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<float, dynamic<>, col_basis, col_major> 4x4", [] { trace_n<matrix<float, dynamic<>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<float, external<4, 4>, col_basis, col_major> 4x4", [] { skew_n<matrix<float, external<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<float, external<4, 4>, col_basis, col_major> 4x4", [] { trace_n<matrix<float, external<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<float, external<>, col_basis, col_major> 4x4", [] { skew_n<matrix<float, external<>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<float, external<>, col_basis, col_major> 4x4", [] { trace_n<matrix<float, external<>, col_basis, col_major>>(4, 4); });
} } r; } }
