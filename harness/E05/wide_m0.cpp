#include "../mixwide.h"
namespace { struct R { R() {
mc::add("large matrices int double", mix::matrices<int, double, cml::row_basis, cml::row_major, true>);
mc::add("large matrices float double", mix::matrices<float, double, cml::col_basis, cml::col_major, false>);
mc::add("large matrices unsigned long long", mix::matrices<unsigned, long long, cml::row_basis, cml::col_major, false>);
mc::add("large matrices double long double", mix::matrices<double, long double, cml::col_basis, cml::row_major, false>);
} } r; }
