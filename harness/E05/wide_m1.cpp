#include "../mixwide.h"
namespace { struct R { R() {
mc::add("large matrices double int", mix::matrices<double, int, cml::row_basis, cml::row_major, false>);
mc::add("large matrices double float", mix::matrices<double, float, cml::col_basis, cml::col_major, true>);
mc::add("large matrices long long unsigned", mix::matrices<long long, unsigned, cml::row_basis, cml::col_major, false>);
mc::add("large matrices int float", mix::matrices<int, float, cml::col_basis, cml::row_major, false>);
} } r; }
