#include "cmp.h"
namespace { struct R { R() { using namespace e06;
mc::add("vectors Sub Fixed", pairs<Sub, Fixed>);
mc::add("vectors Sub Dynamic", pairs<Sub, Dynamic>);
mc::add("vectors Sub External", pairs<Sub, External>);
mc::add("vectors Sub ExternalDyn", pairs<Sub, ExternalDyn>);
mc::add("vectors Sub ConstExternal", pairs<Sub, ConstExternal>);
mc::add("vectors Sub Expr", pairs<Sub, Expr>);
mc::add("vectors Sub Sub", pairs<Sub, Sub>);
mc::add("vectors Sub FloatFixed", pairs<Sub, FloatFixed>);
mc::add("matrices row_basis, cml::col_major | row_basis, cml::row_major", matrices<cml::row_basis, cml::col_major, cml::row_basis, cml::row_major>);
mc::add("matrices row_basis, cml::col_major | col_basis, cml::row_major", matrices<cml::row_basis, cml::col_major, cml::col_basis, cml::row_major>);
mc::add("matrices row_basis, cml::col_major | row_basis, cml::col_major", matrices<cml::row_basis, cml::col_major, cml::row_basis, cml::col_major>);
mc::add("matrices row_basis, cml::col_major | col_basis, cml::col_major", matrices<cml::row_basis, cml::col_major, cml::col_basis, cml::col_major>);
mc::add("fixed matrices 1x1 row_basis, cml::col_major", fixed_matrices<1, 1, cml::row_basis, cml::col_major, cml::col_basis, cml::col_major>);
mc::add("fixed matrices 2x3 row_basis, cml::col_major", fixed_matrices<2, 3, cml::row_basis, cml::col_major, cml::row_basis, cml::row_major>);
mc::add("fixed matrices 3x2 row_basis, cml::col_major", fixed_matrices<3, 2, cml::row_basis, cml::col_major, cml::col_basis, cml::row_major>);
mc::add("fixed matrices 4x4 row_basis, cml::col_major", fixed_matrices<4, 4, cml::row_basis, cml::col_major, cml::row_basis, cml::col_major>);
mc::add("fixed matrices 1x4 row_basis, cml::col_major", fixed_matrices<1, 4, cml::row_basis, cml::col_major, cml::col_basis, cml::col_major>);
} } r; }
