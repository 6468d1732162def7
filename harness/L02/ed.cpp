#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 1x1 matrix<double, external<>, col_basis, row_major>", inverses<matrix<double, external<>, col_basis, row_major>, 1, false>);
mc::add("inverse 3x3 matrix<double, external<>, col_basis, row_major>", inverses<matrix<double, external<>, col_basis, row_major>, 3, false>);
mc::add("products 3x3 matrix<double, external<>, col_basis, row_major>", products<matrix<double, external<>, col_basis, row_major>, 3>);
mc::add("inverse 4x4 matrix<double, external<>, col_basis, row_major>", inverses<matrix<double, external<>, col_basis, row_major>, 4, false>);
mc::add("products 4x4 matrix<double, external<>, col_basis, row_major>", products<matrix<double, external<>, col_basis, row_major>, 4>);
mc::add("inverse 5x5 matrix<double, external<>, col_basis, row_major>", inverses<matrix<double, external<>, col_basis, row_major>, 5, false>);
mc::add("products 5x5 matrix<double, external<>, col_basis, row_major>", products<matrix<double, external<>, col_basis, row_major>, 5>);
} } r; }
