#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x3x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 1, 3, 3>);
mc::add("fixed 2x3x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 2, 3, 3>);
mc::add("fixed 3x3x3 row_basis, row_major", fixed_products<double, row_basis, row_major, 3, 3, 3>);
mc::add("fixed 3x3x3 col_basis, row_major", fixed_products<double, col_basis, row_major, 3, 3, 3>);
mc::add("fixed 3x3x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 3, 3, 3>);
mc::add("fixed 3x3x3 col_basis, col_major", fixed_products<double, col_basis, col_major, 3, 3, 3>);
mc::add("fixed 4x3x3 row_basis, col_major", fixed_products<double, row_basis, col_major, 4, 3, 3>);
} } r; }
