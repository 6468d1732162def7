#include "wide.h"
namespace { struct R { R() { mc::add("large double row basis row major", p02w::runtime<double, cml::row_basis, cml::row_major>); mc::add("large fixed double row basis row major", p02w::fixed_all<double, cml::row_basis, cml::row_major>); } } r; }
