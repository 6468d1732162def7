#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("dynamic laws row_basis, col_major", dynamic_laws<float, row_basis, col_major>);

} } r; }
