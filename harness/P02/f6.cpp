#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x2x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 1, 2, 3>);
mc::add("fixed 2x2x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 2, 2, 3>);
mc::add("fixed 3x2x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 3, 2, 3>);
mc::add("fixed 4x2x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 4, 2, 3>);
} } r; }
