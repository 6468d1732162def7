#include "wide.h"
namespace { struct R { R() { mc::add("large int col basis row major", p02w::runtime<int, cml::col_basis, cml::row_major>);  } } r; }
