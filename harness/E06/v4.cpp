#include "cmp.h"
namespace { struct R { R() { using namespace e06;
mc::add("vectors ConstExternal Fixed", pairs<ConstExternal, Fixed>);
mc::add("vectors ConstExternal Dynamic", pairs<ConstExternal, Dynamic>);
mc::add("vectors ConstExternal External", pairs<ConstExternal, External>);
mc::add("vectors ConstExternal ExternalDyn", pairs<ConstExternal, ExternalDyn>);
mc::add("vectors ConstExternal ConstExternal", pairs<ConstExternal, ConstExternal>);
mc::add("vectors ConstExternal Expr", pairs<ConstExternal, Expr>);
mc::add("vectors ConstExternal Sub", pairs<ConstExternal, Sub>);
mc::add("vectors ConstExternal FloatFixed", pairs<ConstExternal, FloatFixed>);
mc::add("matrices row_basis, cml::row_major | row_basis, cml::row_major", matrices<cml::row_basis, cml::row_major, cml::row_basis, cml::row_major>);
mc::add("matrices row_basis, cml::row_major | col_basis, cml::row_major", matrices<cml::row_basis, cml::row_major, cml::col_basis, cml::row_major>);
mc::add("matrices row_basis, cml::row_major | row_basis, cml::col_major", matrices<cml::row_basis, cml::row_major, cml::row_basis, cml::col_major>);
mc::add("matrices row_basis, cml::row_major | col_basis, cml::col_major", matrices<cml::row_basis, cml::row_major, cml::col_basis, cml::col_major>);
mc::add("fixed matrices 1x1 row_basis, cml::row_major", fixed_matrices<1, 1, cml::row_basis, cml::row_major, cml::col_basis, cml::row_major>);
mc::add("fixed matrices 2x3 row_basis, cml::row_major", fixed_matrices<2, 3, cml::row_basis, cml::row_major, cml::row_basis, cml::col_major>);
mc::add("fixed matrices 3x2 row_basis, cml::row_major", fixed_matrices<3, 2, cml::row_basis, cml::row_major, cml::col_basis, cml::col_major>);
mc::add("fixed matrices 4x4 row_basis, cml::row_major", fixed_matrices<4, 4, cml::row_basis, cml::row_major, cml::row_basis, cml::row_major>);
mc::add("fixed matrices 1x4 row_basis, cml::row_major", fixed_matrices<1, 4, cml::row_basis, cml::row_major, cml::col_basis, cml::row_major>);
} } r; }
