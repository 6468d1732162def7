#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x3x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 1, 3, 2>);
mc::add("fixed 2x3x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 2, 3, 2>);
mc::add("fixed 3x3x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 3, 3, 2>);
mc::add("fixed 4x3x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 4, 3, 2>);
} } r; }
