#include "named.h"
namespace g11 { namespace {
struct R { R() {
mc::add("skew matrix<double, fixed<2, 2>, row_basis, row_major> 2x2", [] { skew_n<matrix<double, fixed<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<double, fixed<2, 2>, row_basis, row_major> 2x2", [] { trace_n<matrix<double, fixed<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<double, dynamic<>, row_basis, row_major> 2x2", [] { skew_n<matrix<double, dynamic<>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<double, dynamic<>, row_basis, row_major> 2x2", [] { trace_n<matrix<double, dynamic<>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<double, external<2, 2>, row_basis, row_major> 2x2", [] { skew_n<matrix<double, external<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<double, external<2, 2>, row_basis, row_major> 2x2", [] { trace_n<matrix<double, external<2, 2>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<double, external<>, row_basis, row_major> 2x2", [] { skew_n<matrix<double, external<>, row_basis, row_major>>(2, 2); });
mc::add("trace matrix<double, external<>, row_basis, row_major> 2x2", [] { trace_n<matrix<double, external<>, row_basis, row_major>>(2, 2); });
mc::add("skew matrix<double, fixed<2, 3>, row_basis, row_major> 2x3", [] { skew_n<matrix<double, fixed<2, 3>, row_basis, row_major>>(2, 3); });
mc::add("trace matrix<double, fixed<2, 3>, row_basis, row_major> 2x3", [] { trace_n<matrix<double, fixed<2, 3>, row_basis, row_major>>(2, 3); });
mc::add("skew matrix<double, dynamic<>, row_basis, row_major> 2x3", [] { skew_n<matrix<double, dynamic<>, row_basis, row_major>>(2, 3); });
mc::add("trace matrix<double, dynamic<>, row_basis, row_major> 2x3", [] { trace_n<matrix<double, dynamic<>, row_basis, row_major>>(2, 3); });
mc::add("skew matrix<double, external<2, 3>, row_basis, row_major> 2x3", [] { skew_n<matrix<double, external<2, 3>, row_basis, row_major>>(2, 3); });
mc::add("trace matrix<double, external<2, 3>, row_basis, row_major> 2x3", [] { trace_n<matrix<double, external<2, 3>, row_basis, row_major>>(2, 3); });
mc::add("skew matrix<double, external<>, row_basis, row_major> 2x3", [] { skew_n<matrix<double, external<>, row_basis, row_major>>(2, 3); });
mc::add("trace matrix<double, external<>, row_basis, row_major> 2x3", [] { trace_n<matrix<double, external<>, row_basis, row_major>>(2, 3); });
mc::add("skew matrix<double, fixed<3, 2>, row_basis, row_major> 3x2", [] { skew_n<matrix<double, fixed<3, 2>, row_basis, row_major>>(3, 2); });
mc::add("trace matrix<double, fixed<3, 2>, row_basis, row_major> 3x2", [] { trace_n<matrix<double, fixed<3, 2>, row_basis, row_major>>(3, 2); });
mc::add("skew matrix<double, dynamic<>, row_basis, row_major> 3x2", [] { skew_n<matrix<double, dynamic<>, row_basis, row_major>>(3, 2); });
mc::add("trace matrix<double, dynamic<>, row_basis, row_major> 3x2", [] { trace_n<matrix<double, dynamic<>, row_basis, row_major>>(3, 2); });
mc::add("skew matrix<double, external<3, 2>, row_basis, row_major> 3x2", [] { skew_n<matrix<double, external<3, 2>, row_basis, row_major>>(3, 2); });
mc::add("trace matrix<double, external<3, 2>, row_basis, row_major> 3x2", [] { trace_n<matrix<double, external<3, 2>, row_basis, row_major>>(3, 2); });
mc::add("skew matrix<double, external<>, row_basis, row_major> 3x2", [] { skew_n<matrix<double, external<>, row_basis, row_major>>(3, 2); });
mc::add("trace matrix<double, external<>, row_basis, row_major> 3x2", [] { trace_n<matrix<double, external<>, row_basis, row_major>>(3, 2); });
mc::add("skew matrix<double, fixed<3, 3>, row_basis, row_major> 3x3", [] { skew_n<matrix<double, fixed<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<double, fixed<3, 3>, row_basis, row_major> 3x3", [] { trace_n<matrix<double, fixed<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<double, dynamic<>, row_basis, row_major> 3x3", [] { skew_n<matrix<double, dynamic<>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<double, dynamic<>, row_basis, row_major> 3x3", [] { trace_n<matrix<double, dynamic<>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<double, external<3, 3>, row_basis, row_major> 3x3", [] { skew_n<matrix<double, external<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<double, external<3, 3>, row_basis, row_major> 3x3", [] { trace_n<matrix<double, external<3, 3>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<double, external<>, row_basis, row_major> 3x3", [] { skew_n<matrix<double, external<>, row_basis, row_major>>(3, 3); });
mc::add("trace matrix<double, external<>, row_basis, row_major> 3x3", [] { trace_n<matrix<double, external<>, row_basis, row_major>>(3, 3); });
mc::add("skew matrix<double, fixed<3, 4>, row_basis, row_major> 3x4", [] { skew_n<matrix<double, fixed<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<double, fixed<3, 4>, row_basis, row_major> 3x4", [] { trace_n<matrix<double, fixed<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<double, dynamic<>, row_basis, row_major> 3x4", [] { skew_n<matrix<double, dynamic<>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<double, dynamic<>, row_basis, row_major> 3x4", [] { trace_n<matrix<double, dynamic<>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<double, external<3, 4>, row_basis, row_major> 3x4", [] { skew_n<matrix<double, external<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<double, external<3, 4>, row_basis, row_major> 3x4", [] { trace_n<matrix<double, external<3, 4>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<double, external<>, row_basis, row_major> 3x4", [] { skew_n<matrix<double, external<>, row_basis, row_major>>(3, 4); });
mc::add("trace matrix<double, external<>, row_basis, row_major> 3x4", [] { trace_n<matrix<double, external<>, row_basis, row_major>>(3, 4); });
mc::add("skew matrix<double, fixed<4, 3>, row_basis, row_major> 4x3", [] { skew_n<matrix<double, fixed<4, 3>, row_basis, row_major>>(4, 3); });
mc::add("trace matrix<double, fixed<4, 3>, row_basis, row_major> 4x3", [] { trace_n<matrix<double, fixed<4, 3>, row_basis, row_major>>(4, 3); });
mc::add("skew matrix<double, dynamic<>, row_basis, row_major> 4x3", [] { skew_n<matrix<double, dynamic<>, row_basis, row_major>>(4, 3); });
mc::add("trace matrix<double, dynamic<>, row_basis, row_major> 4x3", [] { trace_n<matrix<double, dynamic<>, row_basis, row_major>>(4, 3); });
mc::add("skew matrix<double, external<4, 3>, row_basis, row_major> 4x3", [] { skew_n<matrix<double, external<4, 3>, row_basis, row_major>>(4, 3); });
mc::add("trace matrix<double, external<4, 3>, row_basis, row_major> 4x3", [] { trace_n<matrix<double, external<4, 3>, row_basis, row_major>>(4, 3); });
mc::add("skew matrix<double, external<>, row_basis, row_major> 4x3", [] { skew_n<matrix<double, external<>, row_basis, row_major>>(4, 3); });
mc::add("trace matrix<double, external<>, row_basis, row_major> 4x3", [] { trace_n<matrix<double, external<>, row_basis, row_major>>(4, 3); });
mc::add("skew matrix<double, fixed<4, 4>, row_basis, row_major> 4x4", [] { skew_n<matrix<double, fixed<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<double, fixed<4, 4>, row_basis, row_major> 4x4", [] { trace_n<matrix<double, fixed<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<double, dynamic<>, row_basis, row_major> 4x4", [] { skew_n<matrix<double, dynamic<>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<double, dynamic<>, row_basis, row_major> 4x4", [] { trace_n<matrix<double, dynamic<>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<double, external<4, 4>, row_basis, row_major> 4x4", [] { skew_n<matrix<double, external<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<double, external<4, 4>, row_basis, row_major> 4x4", [] { trace_n<matrix<double, external<4, 4>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<double, external<>, row_basis, row_major> 4x4", [] { skew_n<matrix<double, external<>, row_basis, row_major>>(4, 4); });
mc::add("trace matrix<double, external<>, row_basis, row_major> 4x4", [] { trace_n<matrix<double, external<>, row_basis, row_major>>(4, 4); });
mc::add("skew matrix<double, fixed<2, 2>, row_basis, col_major> 2x2", [] { skew_n<matrix<double, fixed<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<double, fixed<2, 2>, row_basis, col_major> 2x2", [] { trace_n<matrix<double, fixed<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<double, dynamic<>, row_basis, col_major> 2x2", [] { skew_n<matrix<double, dynamic<>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<double, dynamic<>, row_basis, col_major> 2x2", [] { trace_n<matrix<double, dynamic<>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<double, external<2, 2>, row_basis, col_major> 2x2", [] { skew_n<matrix<double, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<double, external<2, 2>, row_basis, col_major> 2x2", [] { trace_n<matrix<double, external<2, 2>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<double, external<>, row_basis, col_major> 2x2", [] { skew_n<matrix<double, external<>, row_basis, col_major>>(2, 2); });
mc::add("trace matrix<double, external<>, row_basis, col_major> 2x2", [] { trace_n<matrix<double, external<>, row_basis, col_major>>(2, 2); });
mc::add("skew matrix<double, fixed<2, 3>, row_basis, col_major> 2x3", [] { skew_n<matrix<double, fixed<2, 3>, row_basis, col_major>>(2, 3); });
mc::add("trace matrix<double, fixed<2, 3>, row_basis, col_major> 2x3", [] { trace_n<matrix<double, fixed<2, 3>, row_basis, col_major>>(2, 3); });
mc::add("skew matrix<double, dynamic<>, row_basis, col_major> 2x3", [] { skew_n<matrix<double, dynamic<>, row_basis, col_major>>(2, 3); });
mc::add("trace matrix<double, dynamic<>, row_basis, col_major> 2x3", [] { trace_n<matrix<double, dynamic<>, row_basis, col_major>>(2, 3); });
mc::add("skew matrix<double, external<2, 3>, row_basis, col_major> 2x3", [] { skew_n<matrix<double, external<2, 3>, row_basis, col_major>>(2, 3); });
mc::add("trace matrix<double, external<2, 3>, row_basis, col_major> 2x3", [] { trace_n<matrix<double, external<2, 3>, row_basis, col_major>>(2, 3); });
mc::add("skew matrix<double, external<>, row_basis, col_major> 2x3", [] { skew_n<matrix<double, external<>, row_basis, col_major>>(2, 3); });
mc::add("trace matrix<double, external<>, row_basis, col_major> 2x3", [] { trace_n<matrix<double, external<>, row_basis, col_major>>(2, 3); });
mc::add("skew matrix<double, fixed<3, 2>, row_basis, col_major> 3x2", [] { skew_n<matrix<double, fixed<3, 2>, row_basis, col_major>>(3, 2); });
mc::add("trace matrix<double, fixed<3, 2>, row_basis, col_major> 3x2", [] { trace_n<matrix<double, fixed<3, 2>, row_basis, col_major>>(3, 2); });
mc::add("skew matrix<double, dynamic<>, row_basis, col_major> 3x2", [] { skew_n<matrix<double, dynamic<>, row_basis, col_major>>(3, 2); });
mc::add("trace matrix<double, dynamic<>, row_basis, col_major> 3x2", [] { trace_n<matrix<double, dynamic<>, row_basis, col_major>>(3, 2); });
mc::add("skew matrix<double, external<3, 2>, row_basis, col_major> 3x2", [] { skew_n<matrix<double, external<3, 2>, row_basis, col_major>>(3, 2); });
mc::add("trace matrix<double, external<3, 2>, row_basis, col_major> 3x2", [] { trace_n<matrix<double, external<3, 2>, row_basis, col_major>>(3, 2); });
mc::add("skew matrix<double, external<>, row_basis, col_major> 3x2", [] { skew_n<matrix<double, external<>, row_basis, col_major>>(3, 2); });
mc::add("trace matrix<double, external<>, row_basis, col_major> 3x2", [] { trace_n<matrix<double, external<>, row_basis, col_major>>(3, 2); });
mc::add("skew matrix<double, fixed<3, 3>, row_basis, col_major> 3x3", [] { skew_n<matrix<double, fixed<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<double, fixed<3, 3>, row_basis, col_major> 3x3", [] { trace_n<matrix<double, fixed<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<double, dynamic<>, row_basis, col_major> 3x3", [] { skew_n<matrix<double, dynamic<>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<double, dynamic<>, row_basis, col_major> 3x3", [] { trace_n<matrix<double, dynamic<>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<double, external<3, 3>, row_basis, col_major> 3x3", [] { skew_n<matrix<double, external<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<double, external<3, 3>, row_basis, col_major> 3x3", [] { trace_n<matrix<double, external<3, 3>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<double, external<>, row_basis, col_major> 3x3", [] { skew_n<matrix<double, external<>, row_basis, col_major>>(3, 3); });
mc::add("trace matrix<double, external<>, row_basis, col_major> 3x3", [] { trace_n<matrix<double, external<>, row_basis, col_major>>(3, 3); });
mc::add("skew matrix<double, fixed<3, 4>, row_basis, col_major> 3x4", [] { skew_n<matrix<double, fixed<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<double, fixed<3, 4>, row_basis, col_major> 3x4", [] { trace_n<matrix<double, fixed<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<double, dynamic<>, row_basis, col_major> 3x4", [] { skew_n<matrix<double, dynamic<>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<double, dynamic<>, row_basis, col_major> 3x4", [] { trace_n<matrix<double, dynamic<>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<double, external<3, 4>, row_basis, col_major> 3x4", [] { skew_n<matrix<double, external<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<double, external<3, 4>, row_basis, col_major> 3x4", [] { trace_n<matrix<double, external<3, 4>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<double, external<>, row_basis, col_major> 3x4", [] { skew_n<matrix<double, external<>, row_basis, col_major>>(3, 4); });
mc::add("trace matrix<double, external<>, row_basis, col_major> 3x4", [] { trace_n<matrix<double, external<>, row_basis, col_major>>(3, 4); });
mc::add("skew matrix<double, fixed<4, 3>, row_basis, col_major> 4x3", [] { skew_n<matrix<double, fixed<4, 3>, row_basis, col_major>>(4, 3); });
mc::add("trace matrix<double, fixed<4, 3>, row_basis, col_major> 4x3", [] { trace_n<matrix<double, fixed<4, 3>, row_basis, col_major>>(4, 3); });
mc::add("skew matrix<double, dynamic<>, row_basis, col_major> 4x3", [] { skew_n<matrix<double, dynamic<>, row_basis, col_major>>(4, 3); });
mc::add("trace matrix<double, dynamic<>, row_basis, col_major> 4x3", [] { trace_n<matrix<double, dynamic<>, row_basis, col_major>>(4, 3); });
mc::add("skew matrix<double, external<4, 3>, row_basis, col_major> 4x3", [] { skew_n<matrix<double, external<4, 3>, row_basis, col_major>>(4, 3); });
mc::add("trace matrix<double, external<4, 3>, row_basis, col_major> 4x3", [] { trace_n<matrix<double, external<4, 3>, row_basis, col_major>>(4, 3); });
mc::add("skew matrix<double, external<>, row_basis, col_major> 4x3", [] { skew_n<matrix<double, external<>, row_basis, col_major>>(4, 3); });
mc::add("trace matrix<double, external<>, row_basis, col_major> 4x3", [] { trace_n<matrix<double, external<>, row_basis, col_major>>(4, 3); });
mc::add("skew matrix<double, fixed<4, 4>, row_basis, col_major> 4x4", [] { skew_n<matrix<double, fixed<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<double, fixed<4, 4>, row_basis, col_major> 4x4", [] { trace_n<matrix<double, fixed<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<double, dynamic<>, row_basis, col_major> 4x4", [] { skew_n<matrix<double, dynamic<>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<double, dynamic<>, row_basis, col_major> 4x4", [] { trace_n<matrix<double, dynamic<>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<double, external<4, 4>, row_basis, col_major> 4x4", [] { skew_n<matrix<double, external<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<double, external<4, 4>, row_basis, col_major> 4x4", [] { trace_n<matrix<double, external<4, 4>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<double, external<>, row_basis, col_major> 4x4", [] { skew_n<matrix<double, external<>, row_basis, col_major>>(4, 4); });
mc::add("trace matrix<double, external<>, row_basis, col_major> 4x4", [] { trace_n<matrix<double, external<>, row_basis, col_major>>(4, 4); });
mc::add("skew matrix<double, fixed<2, 2>, col_basis, row_major> 2x2", [] { skew_n<matrix<double, fixed<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<double, fixed<2, 2>, col_basis, row_major> 2x2", [] { trace_n<matrix<double, fixed<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<double, dynamic<>, col_basis, row_major> 2x2", [] { skew_n<matrix<double, dynamic<>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<double, dynamic<>, col_basis, row_major> 2x2", [] { trace_n<matrix<double, dynamic<>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<double, external<2, 2>, col_basis, row_major> 2x2", [] { skew_n<matrix<double, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<double, external<2, 2>, col_basis, row_major> 2x2", [] { trace_n<matrix<double, external<2, 2>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<double, external<>, col_basis, row_major> 2x2", [] { skew_n<matrix<double, external<>, col_basis, row_major>>(2, 2); });
mc::add("trace matrix<double, external<>, col_basis, row_major> 2x2", [] { trace_n<matrix<double, external<>, col_basis, row_major>>(2, 2); });
mc::add("skew matrix<double, fixed<2, 3>, col_basis, row_major> 2x3", [] { skew_n<matrix<double, fixed<2, 3>, col_basis, row_major>>(2, 3); });
mc::add("trace matrix<double, fixed<2, 3>, col_basis, row_major> 2x3", [] { trace_n<matrix<double, fixed<2, 3>, col_basis, row_major>>(2, 3); });
mc::add("skew matrix<double, dynamic<>, col_basis, row_major> 2x3", [] { skew_n<matrix<double, dynamic<>, col_basis, row_major>>(2, 3); });
mc::add("trace matrix<double, dynamic<>, col_basis, row_major> 2x3", [] { trace_n<matrix<double, dynamic<>, col_basis, row_major>>(2, 3); });
mc::add("skew matrix<double, external<2, 3>, col_basis, row_major> 2x3", [] { skew_n<matrix<double, external<2, 3>, col_basis, row_major>>(2, 3); });
mc::add("trace matrix<double, external<2, 3>, col_basis, row_major> 2x3", [] { trace_n<matrix<double, external<2, 3>, col_basis, row_major>>(2, 3); });
mc::add("skew matrix<double, external<>, col_basis, row_major> 2x3", [] { skew_n<matrix<double, external<>, col_basis, row_major>>(2, 3); });
mc::add("trace matrix<double, external<>, col_basis, row_major> 2x3", [] { trace_n<matrix<double, external<>, col_basis, row_major>>(2, 3); });
mc::add("skew matrix<double, fixed<3, 2>, col_basis, row_major> 3x2", [] { skew_n<matrix<double, fixed<3, 2>, col_basis, row_major>>(3, 2); });
mc::add("trace matrix<double, fixed<3, 2>, col_basis, row_major> 3x2", [] { trace_n<matrix<double, fixed<3, 2>, col_basis, row_major>>(3, 2); });
mc::add("skew matrix<double, dynamic<>, col_basis, row_major> 3x2", [] { skew_n<matrix<double, dynamic<>, col_basis, row_major>>(3, 2); });
mc::add("trace matrix<double, dynamic<>, col_basis, row_major> 3x2", [] { trace_n<matrix<double, dynamic<>, col_basis, row_major>>(3, 2); });
mc::add("skew matrix<double, external<3, 2>, col_basis, row_major> 3x2", [] { skew_n<matrix<double, external<3, 2>, col_basis, row_major>>(3, 2); });
mc::add("trace matrix<double, external<3, 2>, col_basis, row_major> 3x2", [] { trace_n<matrix<double, external<3, 2>, col_basis, row_major>>(3, 2); });
mc::add("skew matrix<double, external<>, col_basis, row_major> 3x2", [] { skew_n<matrix<double, external<>, col_basis, row_major>>(3, 2); });
mc::add("trace matrix<double, external<>, col_basis, row_major> 3x2", [] { trace_n<matrix<double, external<>, col_basis, row_major>>(3, 2); });
mc::add("skew matrix<double, fixed<3, 3>, col_basis, row_major> 3x3", [] { skew_n<matrix<double, fixed<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<double, fixed<3, 3>, col_basis, row_major> 3x3", [] { trace_n<matrix<double, fixed<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<double, dynamic<>, col_basis, row_major> 3x3", [] { skew_n<matrix<double, dynamic<>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<double, dynamic<>, col_basis, row_major> 3x3", [] { trace_n<matrix<double, dynamic<>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<double, external<3, 3>, col_basis, row_major> 3x3", [] { skew_n<matrix<double, external<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<double, external<3, 3>, col_basis, row_major> 3x3", [] { trace_n<matrix<double, external<3, 3>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<double, external<>, col_basis, row_major> 3x3", [] { skew_n<matrix<double, external<>, col_basis, row_major>>(3, 3); });
mc::add("trace matrix<double, external<>, col_basis, row_major> 3x3", [] { trace_n<matrix<double, external<>, col_basis, row_major>>(3, 3); });
mc::add("skew matrix<double, fixed<3, 4>, col_basis, row_major> 3x4", [] { skew_n<matrix<double, fixed<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<double, fixed<3, 4>, col_basis, row_major> 3x4", [] { trace_n<matrix<double, fixed<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<double, dynamic<>, col_basis, row_major> 3x4", [] { skew_n<matrix<double, dynamic<>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<double, dynamic<>, col_basis, row_major> 3x4", [] { trace_n<matrix<double, dynamic<>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<double, external<3, 4>, col_basis, row_major> 3x4", [] { skew_n<matrix<double, external<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<double, external<3, 4>, col_basis, row_major> 3x4", [] { trace_n<matrix<double, external<3, 4>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<double, external<>, col_basis, row_major> 3x4", [] { skew_n<matrix<double, external<>, col_basis, row_major>>(3, 4); });
mc::add("trace matrix<double, external<>, col_basis, row_major> 3x4", [] { trace_n<matrix<double, external<>, col_basis, row_major>>(3, 4); });
mc::add("skew matrix<double, fixed<4, 3>, col_basis, row_major> 4x3", [] { skew_n<matrix<double, fixed<4, 3>, col_basis, row_major>>(4, 3); });
mc::add("trace matrix<double, fixed<4, 3>, col_basis, row_major> 4x3", [] { trace_n<matrix<double, fixed<4, 3>, col_basis, row_major>>(4, 3); });
mc::add("skew matrix<double, dynamic<>, col_basis, row_major> 4x3", [] { skew_n<matrix<double, dynamic<>, col_basis, row_major>>(4, 3); });
mc::add("trace matrix<double, dynamic<>, col_basis, row_major> 4x3", [] { trace_n<matrix<double, dynamic<>, col_basis, row_major>>(4, 3); });
mc::add("skew matrix<double, external<4, 3>, col_basis, row_major> 4x3", [] { skew_n<matrix<double, external<4, 3>, col_basis, row_major>>(4, 3); });
mc::add("trace matrix<double, external<4, 3>, col_basis, row_major> 4x3", [] { trace_n<matrix<double, external<4, 3>, col_basis, row_major>>(4, 3); });
mc::add("skew matrix<double, external<>, col_basis, row_major> 4x3", [] { skew_n<matrix<double, external<>, col_basis, row_major>>(4, 3); });
mc::add("trace matrix<double, external<>, col_basis, row_major> 4x3", [] { trace_n<matrix<double, external<>, col_basis, row_major>>(4, 3); });
mc::add("skew matrix<double, fixed<4, 4>, col_basis, row_major> 4x4", [] { skew_n<matrix<double, fixed<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<double, fixed<4, 4>, col_basis, row_major> 4x4", [] { trace_n<matrix<double, fixed<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<double, dynamic<>, col_basis, row_major> 4x4", [] { skew_n<matrix<double, dynamic<>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<double, dynamic<>, col_basis, row_major> 4x4", [] { trace_n<matrix<double, dynamic<>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<double, external<4, 4>, col_basis, row_major> 4x4", [] { skew_n<matrix<double, external<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<double, external<4, 4>, col_basis, row_major> 4x4", [] { trace_n<matrix<double, external<4, 4>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<double, external<>, col_basis, row_major> 4x4", [] { skew_n<matrix<double, external<>, col_basis, row_major>>(4, 4); });
mc::add("trace matrix<double, external<>, col_basis, row_major> 4x4", [] { trace_n<matrix<double, external<>, col_basis, row_major>>(4, 4); });
mc::add("skew matrix<double, fixed<2, 2>, col_basis, col_major> 2x2", [] { skew_n<matrix<double, fixed<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<double, fixed<2, 2>, col_basis, col_major> 2x2", [] { trace_n<matrix<double, fixed<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<double, dynamic<>, col_basis, col_major> 2x2", [] { skew_n<matrix<double, dynamic<>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<double, dynamic<>, col_basis, col_major> 2x2", [] { trace_n<matrix<double, dynamic<>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<double, external<2, 2>, col_basis, col_major> 2x2", [] { skew_n<matrix<double, external<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<double, external<2, 2>, col_basis, col_major> 2x2", [] { trace_n<matrix<double, external<2, 2>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<double, external<>, col_basis, col_major> 2x2", [] { skew_n<matrix<double, external<>, col_basis, col_major>>(2, 2); });
mc::add("trace matrix<double, external<>, col_basis, col_major> 2x2", [] { trace_n<matrix<double, external<>, col_basis, col_major>>(2, 2); });
mc::add("skew matrix<double, fixed<2, 3>, col_basis, col_major> 2x3", [] { skew_n<matrix<double, fixed<2, 3>, col_basis, col_major>>(2, 3); });
mc::add("trace matrix<double, fixed<2, 3>, col_basis, col_major> 2x3", [] { trace_n<matrix<double, fixed<2, 3>, col_basis, col_major>>(2, 3); });
mc::add("skew matrix<double, dynamic<>, col_basis, col_major> 2x3", [] { skew_n<matrix<double, dynamic<>, col_basis, col_major>>(2, 3); });
mc::add("trace matrix<double, dynamic<>, col_basis, col_major> 2x3", [] { trace_n<matrix<double, dynamic<>, col_basis, col_major>>(2, 3); });
mc::add("skew matrix<double, external<2, 3>, col_basis, col_major> 2x3", [] { skew_n<matrix<double, external<2, 3>, col_basis, col_major>>(2, 3); });
mc::add("trace matrix<double, external<2, 3>, col_basis, col_major> 2x3", [] { trace_n<matrix<double, external<2, 3>, col_basis, col_major>>(2, 3); });
mc::add("skew matrix<double, external<>, col_basis, col_major> 2x3", [] { skew_n<matrix<double, external<>, col_basis, col_major>>(2, 3); });
mc::add("trace matrix<double, external<>, col_basis, col_major> 2x3", [] { trace_n<matrix<double, external<>, col_basis, col_major>>(2, 3); });
mc::add("skew matrix<double, fixed<3, 2>, col_basis, col_major> 3x2", [] { skew_n<matrix<double, fixed<3, 2>, col_basis, col_major>>(3, 2); });
mc::add("trace matrix<double, fixed<3, 2>, col_basis, col_major> 3x2", [] { trace_n<matrix<double, fixed<3, 2>, col_basis, col_major>>(3, 2); });
mc::add("skew matrix<double, dynamic<>, col_basis, col_major> 3x2", [] { skew_n<matrix<double, dynamic<>, col_basis, col_major>>(3, 2); });
mc::add("trace matrix<double, dynamic<>, col_basis, col_major> 3x2", [] { trace_n<matrix<double, dynamic<>, col_basis, col_major>>(3, 2); });
mc::add("skew matrix<double, external<3, 2>, col_basis, col_major> 3x2", [] { skew_n<matrix<double, external<3, 2>, col_basis, col_major>>(3, 2); });
mc::add("trace matrix<double, external<3, 2>, col_basis, col_major> 3x2", [] { trace_n<matrix<double, external<3, 2>, col_basis, col_major>>(3, 2); });
mc::add("skew matrix<double, external<>, col_basis, col_major> 3x2", [] { skew_n<matrix<double, external<>, col_basis, col_major>>(3, 2); });
mc::add("trace matrix<double, external<>, col_basis, col_major> 3x2", [] { trace_n<matrix<double, external<>, col_basis, col_major>>(3, 2); });
mc::add("skew matrix<double, fixed<3, 3>, col_basis, col_major> 3x3", [] { skew_n<matrix<double, fixed<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<double, fixed<3, 3>, col_basis, col_major> 3x3", [] { trace_n<matrix<double, fixed<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<double, dynamic<>, col_basis, col_major> 3x3", [] { skew_n<matrix<double, dynamic<>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<double, dynamic<>, col_basis, col_major> 3x3", [] { trace_n<matrix<double, dynamic<>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<double, external<3, 3>, col_basis, col_major> 3x3", [] { skew_n<matrix<double, external<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<double, external<3, 3>, col_basis, col_major> 3x3", [] { trace_n<matrix<double, external<3, 3>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<double, external<>, col_basis, col_major> 3x3", [] { skew_n<matrix<double, external<>, col_basis, col_major>>(3, 3); });
mc::add("trace matrix<double, external<>, col_basis, col_major> 3x3", [] { trace_n<matrix<double, external<>, col_basis, col_major>>(3, 3); });
mc::add("skew matrix<double, fixed<3, 4>, col_basis, col_major> 3x4", [] { skew_n<matrix<double, fixed<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<double, fixed<3, 4>, col_basis, col_major> 3x4", [] { trace_n<matrix<double, fixed<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<double, dynamic<>, col_basis, col_major> 3x4", [] { skew_n<matrix<double, dynamic<>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<double, dynamic<>, col_basis, col_major> 3x4", [] { trace_n<matrix<double, dynamic<>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<double, external<3, 4>, col_basis, col_major> 3x4", [] { skew_n<matrix<double, external<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<double, external<3, 4>, col_basis, col_major> 3x4", [] { trace_n<matrix<double, external<3, 4>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<double, external<>, col_basis, col_major> 3x4", [] { skew_n<matrix<double, external<>, col_basis, col_major>>(3, 4); });
mc::add("trace matrix<double, external<>, col_basis, col_major> 3x4", [] { trace_n<matrix<double, external<>, col_basis, col_major>>(3, 4); });
mc::add("skew matrix<double, fixed<4, 3>, col_basis, col_major> 4x3", [] { skew_n<matrix<double, fixed<4, 3>, col_basis, col_major>>(4, 3); });
mc::add("trace matrix<double, fixed<4, 3>, col_basis, col_major> 4x3", [] { trace_n<matrix<double, fixed<4, 3>, col_basis, col_major>>(4, 3); });
mc::add("skew matrix<double, dynamic<>, col_basis, col_major> 4x3", [] { skew_n<matrix<double, dynamic<>, col_basis, col_major>>(4, 3); });
mc::add("trace matrix<double, dynamic<>, col_basis, col_major> 4x3", [] { trace_n<matrix<double, dynamic<>, col_basis, col_major>>(4, 3); });
mc::add("skew matrix<double, external<4, 3>, col_basis, col_major> 4x3", [] { skew_n<matrix<double, external<4, 3>, col_basis, col_major>>(4, 3); });
mc::add("trace matrix<double, external<4, 3>, col_basis, col_major> 4x3", [] { trace_n<matrix<double, external<4, 3>, col_basis, col_major>>(4, 3); });
mc::add("skew matrix<double, external<>, col_basis, col_major> 4x3", [] { skew_n<matrix<double, external<>, col_basis, col_major>>(4, 3); });
mc::add("trace matrix<double, external<>, col_basis, col_major> 4x3", [] { trace_n<matrix<double, external<>, col_basis, col_major>>(4, 3); });
mc::add("skew matrix<double, fixed<4, 4>, col_basis, col_major> 4x4", [] { skew_n<matrix<double, fixed<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<double, fixed<4, 4>, col_basis, col_major> 4x4", [] { trace_n<matrix<double, fixed<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<double, dynamic<>, col_basis, col_major> 4x4", [] { skew_n<matrix<double, dynamic<>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<double, dynamic<>, col_basis, col_major> 4x4", [] { trace_n<matrix<double, dynamic<>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<double, external<4, 4>, col_basis, col_major> 4x4", [] { skew_n<matrix<double, external<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<double, external<4, 4>, col_basis, col_major> 4x4", [] { trace_n<matrix<double, external<4, 4>, col_basis, col_major>>(4, 4); });
mc::add("skew matrix<double, external<>, col_basis, col_major> 4x4", [] { skew_n<matrix<double, external<>, col_basis, col_major>>(4, 4); });
mc::add("trace matrix<double, external<>, col_basis, col_major> 4x4", [] { trace_n<matrix<double, external<>, col_basis, col_major>>(4, 4); });
} } r; } }
