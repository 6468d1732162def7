#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 2x2 matrix<double, fixed<2, 2>, col_basis, col_major>", inverses<matrix<double, fixed<2, 2>, col_basis, col_major>, 2, false>);
mc::add("products 2x2 matrix<double, fixed<2, 2>, col_basis, col_major>", products<matrix<double, fixed<2, 2>, col_basis, col_major>, 2>);
} } r; }
