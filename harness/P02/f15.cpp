#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x4x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 1, 4, 4>);
mc::add("fixed 2x4x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 2, 4, 4>);
mc::add("fixed 3x4x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 3, 4, 4>);
mc::add("fixed 4x4x4 row_basis, row_major", fixed_products<double, row_basis, row_major, 4, 4, 4>);
mc::add("fixed 4x4x4 col_basis, row_major", fixed_products<double, col_basis, row_major, 4, 4, 4>);
mc::add("fixed 4x4x4 row_basis, col_major", fixed_products<double, row_basis, col_major, 4, 4, 4>);
mc::add("fixed 4x4x4 col_basis, col_major", fixed_products<double, col_basis, col_major, 4, 4, 4>);
} } r; }
