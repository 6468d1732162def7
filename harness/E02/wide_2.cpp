#include "wide.h"
namespace { struct R { R() { mc::add("large float, cml::row_basis, cml::col_major, false", e02w::all<float, cml::row_basis, cml::col_major, false>); } } r; }
