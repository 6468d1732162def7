#include "../mixwide.h"
namespace { struct R { R() {
mc::add("large mixed double int", mix::products<double, int, cml::row_basis, cml::row_major>);
mc::add("large mixed double float", mix::products<double, float, cml::col_basis, cml::col_major>);
mc::add("large mixed long long unsigned", mix::products<long long, unsigned, cml::row_basis, cml::col_major>);
mc::add("large mixed int float", mix::products<int, float, cml::col_basis, cml::row_major>);
} } r; }
