#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 4x4 matrix<double, fixed<4, 4>, col_basis, row_major>", inverses<matrix<double, fixed<4, 4>, col_basis, row_major>, 4, true>);
mc::add("scaled 4x4 matrix<double, fixed<4, 4>, col_basis, row_major>", scaled<matrix<double, fixed<4, 4>, col_basis, row_major>, 4>);
mc::add("products 4x4 matrix<double, fixed<4, 4>, col_basis, row_major>", products<matrix<double, fixed<4, 4>, col_basis, row_major>, 4>);
} } r; }
