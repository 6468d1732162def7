#include "prod.h"
namespace { struct R { R() { using namespace p02;
mc::add("dynamic laws row_basis, row_major", dynamic_laws<double, row_basis, row_major>);

} } r; }
