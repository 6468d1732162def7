#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("matrix double external<3, 3> col_basis col_major 3x3", [] { matrices<double, cml::external<3, 3>, cml::col_basis, cml::col_major>(3, 3); });
mc::add("matrix double external<> row_basis row_major 3x3", [] { matrices<double, cml::external<>, cml::row_basis, cml::row_major>(3, 3); }); } } r; }
