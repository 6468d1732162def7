#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("matrix double fixed<2, 2> col_basis row_major 2x2", [] { matrices<double, cml::fixed<2, 2>, cml::col_basis, cml::row_major>(2, 2); });
mc::add("matrix double fixed<2, 3> row_basis col_major 2x3", [] { matrices<double, cml::fixed<2, 3>, cml::row_basis, cml::col_major>(2, 3); }); } } r; }
