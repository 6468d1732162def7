#include "inv.h"
namespace { struct R { R() { using namespace l02;
mc::add("inverse 5x5 matrix<double, fixed<5, 5>, col_basis, col_major>", inverses<matrix<double, fixed<5, 5>, col_basis, col_major>, 5, false>);
mc::add("products 5x5 matrix<double, fixed<5, 5>, col_basis, col_major>", products<matrix<double, fixed<5, 5>, col_basis, col_major>, 5>);
} } r; }
