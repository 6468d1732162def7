#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("dynamic products col_basis, col_major", dynamic_products<double, col_basis, col_major>);
mc::add("dynamic vectors col_basis, col_major", dynamic_vectors<double, col_basis, col_major>);

} } r; }
