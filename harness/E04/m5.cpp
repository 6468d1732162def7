#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("matrix int fixed<2, 2> row_basis row_major 2x2", [] { matrices<int, cml::fixed<2, 2>, cml::row_basis, cml::row_major>(2, 2); });
mc::add("matrix int dynamic<> row_basis col_major 2x3", [] { matrices<int, cml::dynamic<>, cml::row_basis, cml::col_major>(2, 3); }); } } r; }
