#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("dynamic laws col_basis, row_major", dynamic_laws<int, col_basis, row_major>);

} } r; }
