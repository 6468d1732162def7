#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("matrix double fixed<3, 3> row_basis col_major 3x3", [] { matrices<double, cml::fixed<3, 3>, cml::row_basis, cml::col_major>(3, 3); });
mc::add("matrix double fixed<4, 4> col_basis row_major 4x4", [] { matrices<double, cml::fixed<4, 4>, cml::col_basis, cml::row_major>(4, 4); }); } } r; }
