#include "wide.h"
namespace { struct R { R() { mc::add("large double, cml::row_basis, cml::row_major, true", e02w::all<double, cml::row_basis, cml::row_major, true>); } } r; }
