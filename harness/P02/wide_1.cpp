#include "wide.h"
namespace { struct R { R() { mc::add("large double col basis col major", p02w::runtime<double, cml::col_basis, cml::col_major>); mc::add("large fixed double col basis col major", p02w::fixed_all<double, cml::col_basis, cml::col_major>); } } r; }
