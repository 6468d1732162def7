#include "cmp.h"
namespace { struct R { R() { using namespace e06;
mc::add("vectors FloatFixed Fixed", pairs<FloatFixed, Fixed>);
mc::add("vectors FloatFixed Dynamic", pairs<FloatFixed, Dynamic>);
mc::add("vectors FloatFixed External", pairs<FloatFixed, External>);
mc::add("vectors FloatFixed ExternalDyn", pairs<FloatFixed, ExternalDyn>);
mc::add("vectors FloatFixed ConstExternal", pairs<FloatFixed, ConstExternal>);
mc::add("vectors FloatFixed Expr", pairs<FloatFixed, Expr>);
mc::add("vectors FloatFixed Sub", pairs<FloatFixed, Sub>);
mc::add("vectors FloatFixed FloatFixed", pairs<FloatFixed, FloatFixed>);
mc::add("matrices col_basis, cml::col_major | row_basis, cml::row_major", matrices<cml::col_basis, cml::col_major, cml::row_basis, cml::row_major>);
mc::add("matrices col_basis, cml::col_major | col_basis, cml::row_major", matrices<cml::col_basis, cml::col_major, cml::col_basis, cml::row_major>);
mc::add("matrices col_basis, cml::col_major | row_basis, cml::col_major", matrices<cml::col_basis, cml::col_major, cml::row_basis, cml::col_major>);
mc::add("matrices col_basis, cml::col_major | col_basis, cml::col_major", matrices<cml::col_basis, cml::col_major, cml::col_basis, cml::col_major>);
mc::add("fixed matrices 1x1 col_basis, cml::col_major", fixed_matrices<1, 1, cml::col_basis, cml::col_major, cml::row_basis, cml::row_major>);
mc::add("fixed matrices 2x3 col_basis, cml::col_major", fixed_matrices<2, 3, cml::col_basis, cml::col_major, cml::col_basis, cml::row_major>);
mc::add("fixed matrices 3x2 col_basis, cml::col_major", fixed_matrices<3, 2, cml::col_basis, cml::col_major, cml::row_basis, cml::col_major>);
mc::add("fixed matrices 4x4 col_basis, cml::col_major", fixed_matrices<4, 4, cml::col_basis, cml::col_major, cml::col_basis, cml::col_major>);
mc::add("fixed matrices 1x4 col_basis, cml::col_major", fixed_matrices<1, 4, cml::col_basis, cml::col_major, cml::row_basis, cml::row_major>);
} } r; }
