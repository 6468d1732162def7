#include "cmp.h"
namespace { struct R { R() { using namespace e06;
mc::add("vectors Expr Fixed", pairs<Expr, Fixed>);
mc::add("vectors Expr Dynamic", pairs<Expr, Dynamic>);
mc::add("vectors Expr External", pairs<Expr, External>);
mc::add("vectors Expr ExternalDyn", pairs<Expr, ExternalDyn>);
mc::add("vectors Expr ConstExternal", pairs<Expr, ConstExternal>);
mc::add("vectors Expr Expr", pairs<Expr, Expr>);
mc::add("vectors Expr Sub", pairs<Expr, Sub>);
mc::add("vectors Expr FloatFixed", pairs<Expr, FloatFixed>);
mc::add("matrices col_basis, cml::row_major | row_basis, cml::row_major", matrices<cml::col_basis, cml::row_major, cml::row_basis, cml::row_major>);
mc::add("matrices col_basis, cml::row_major | col_basis, cml::row_major", matrices<cml::col_basis, cml::row_major, cml::col_basis, cml::row_major>);
mc::add("matrices col_basis, cml::row_major | row_basis, cml::col_major", matrices<cml::col_basis, cml::row_major, cml::row_basis, cml::col_major>);
mc::add("matrices col_basis, cml::row_major | col_basis, cml::col_major", matrices<cml::col_basis, cml::row_major, cml::col_basis, cml::col_major>);
mc::add("fixed matrices 1x1 col_basis, cml::row_major", fixed_matrices<1, 1, cml::col_basis, cml::row_major, cml::row_basis, cml::col_major>);
mc::add("fixed matrices 2x3 col_basis, cml::row_major", fixed_matrices<2, 3, cml::col_basis, cml::row_major, cml::col_basis, cml::col_major>);
mc::add("fixed matrices 3x2 col_basis, cml::row_major", fixed_matrices<3, 2, cml::col_basis, cml::row_major, cml::row_basis, cml::row_major>);
mc::add("fixed matrices 4x4 col_basis, cml::row_major", fixed_matrices<4, 4, cml::col_basis, cml::row_major, cml::col_basis, cml::row_major>);
mc::add("fixed matrices 1x4 col_basis, cml::row_major", fixed_matrices<1, 4, cml::col_basis, cml::row_major, cml::row_basis, cml::col_major>);
} } r; }
