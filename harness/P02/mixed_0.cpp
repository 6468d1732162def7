#include "../mixwide.h"
namespace { struct R { R() {
mc::add("large mixed int double", mix::products<int, double, cml::row_basis, cml::row_major>);
mc::add("large mixed float double", mix::products<float, double, cml::col_basis, cml::col_major>);
mc::add("large mixed unsigned long long", mix::products<unsigned, long long, cml::row_basis, cml::col_major>);
mc::add("large mixed double long double", mix::products<double, long double, cml::col_basis, cml::row_major>);
} } r; }
