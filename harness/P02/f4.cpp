#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x2x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 1, 2, 1>);
mc::add("fixed 2x2x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 2, 2, 1>);
mc::add("fixed 3x2x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 3, 2, 1>);
mc::add("fixed 4x2x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 4, 2, 1>);
} } r; }
