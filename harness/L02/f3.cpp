#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 3x3 matrix<double, fixed<3, 3>, col_basis, row_major>", inverses<matrix<double, fixed<3, 3>, col_basis, row_major>, 3, true>);
mc::add("scaled 3x3 matrix<double, fixed<3, 3>, col_basis, row_major>", scaled<matrix<double, fixed<3, 3>, col_basis, row_major>, 3>);
mc::add("products 3x3 matrix<double, fixed<3, 3>, col_basis, row_major>", products<matrix<double, fixed<3, 3>, col_basis, row_major>, 3>);
} } r; }
