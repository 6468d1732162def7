#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 2x2 matrix<double, fixed<2, 2>, col_basis, row_major>", inverses<matrix<double, fixed<2, 2>, col_basis, row_major>, 2, true>);
mc::add("scaled 2x2 matrix<double, fixed<2, 2>, col_basis, row_major>", scaled<matrix<double, fixed<2, 2>, col_basis, row_major>, 2>);
mc::add("products 2x2 matrix<double, fixed<2, 2>, col_basis, row_major>", products<matrix<double, fixed<2, 2>, col_basis, row_major>, 2>);
} } r; }
