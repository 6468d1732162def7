#include "wide.h"
namespace { struct R { R() { mc::add("large int, cml::col_basis, cml::row_major, false", e02w::all<int, cml::col_basis, cml::row_major, false>); } } r; }
