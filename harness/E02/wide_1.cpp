#include "wide.h"
namespace { struct R { R() { mc::add("large double, cml::col_basis, cml::col_major, true", e02w::all<double, cml::col_basis, cml::col_major, true>); } } r; }
