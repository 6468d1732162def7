#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 3x3 matrix<double, external<3, 3>, col_basis, col_major>", inverses<matrix<double, external<3, 3>, col_basis, col_major>, 3, false>);
mc::add("products 3x3 matrix<double, external<3, 3>, col_basis, col_major>", products<matrix<double, external<3, 3>, col_basis, col_major>, 3>);
} } r; }
