#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x2x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 1, 2, 2>);
mc::add("fixed 2x2x2 row_basis, row_major", fixed_products<double, row_basis, row_major, 2, 2, 2>);
mc::add("fixed 2x2x2 col_basis, row_major", fixed_products<double, col_basis, row_major, 2, 2, 2>);
mc::add("fixed 2x2x2 row_basis, col_major", fixed_products<double, row_basis, col_major, 2, 2, 2>);
mc::add("fixed 2x2x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 2, 2, 2>);
mc::add("fixed 3x2x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 3, 2, 2>);
mc::add("fixed 4x2x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 4, 2, 2>);
} } r; }
