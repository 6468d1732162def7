#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("fixed 1x4x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 1, 4, 1>);
mc::add("fixed 2x4x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 2, 4, 1>);
mc::add("fixed 3x4x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 3, 4, 1>);
mc::add("fixed 4x4x1 row_basis, row_major", fixed_products<double, row_basis, row_major, 4, 4, 1>);
} } r; }
