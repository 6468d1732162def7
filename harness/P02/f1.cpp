#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x1x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 1, 1, 2>);
mc::add("fixed 2x1x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 2, 1, 2>);
mc::add("fixed 3x1x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 3, 1, 2>);
mc::add("fixed 4x1x2 col_basis, col_major", fixed_products<double, col_basis, col_major, 4, 1, 2>);
} } r; }
