#include "inplace.h"
namespace { struct R { R() { using namespace e04; mc::add("matrix double dynamic<> col_basis col_major 1x1", [] { matrices<double, cml::dynamic<>, cml::col_basis, cml::col_major>(1, 1); });
mc::add("matrix double dynamic<> col_basis col_major 2x2", [] { matrices<double, cml::dynamic<>, cml::col_basis, cml::col_major>(2, 2); });
mc::add("matrix double dynamic<> col_basis col_major 3x3", [] { matrices<double, cml::dynamic<>, cml::col_basis, cml::col_major>(3, 3); });
mc::add("matrix double dynamic<> col_basis col_major 2x3", [] { matrices<double, cml::dynamic<>, cml::col_basis, cml::col_major>(2, 3); });
mc::add("matrix double dynamic<> col_basis col_major 4x4", [] { matrices<double, cml::dynamic<>, cml::col_basis, cml::col_major>(4, 4); }); } } r; }
