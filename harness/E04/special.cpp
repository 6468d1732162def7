#include "../special.h"
namespace { using namespace special; using RB = cml::row_basis; using CB = cml::col_basis; using RM = cml::row_major; using CM = cml::col_major; template<class T, class O, class C> using Q = cml::quaternion<T, cml::fixed<>, O, C>; struct R { R() {
mc::add("special vector fixed double", vectors_inplace<double, cml::fixed<3>>); mc::add("special vector dynamic double", vectors_inplace<double, cml::dynamic<>>); mc::add("special vector external float", vectors_inplace<float, cml::external<>>); mc::add("special vector external fixed double", vectors_inplace<double, cml::external<3>>); mc::add("special vector dynamic unsigned", vectors_inplace<unsigned, cml::dynamic<>>); mc::add("special vector fixed unsigned", vectors_inplace<unsigned, cml::fixed<3>>);
mc::add("special matrix fixed double", matrices_inplace<double, cml::fixed<2, 3>, RB, RM>); mc::add("special matrix dynamic double", matrices_inplace<double, cml::dynamic<>, CB, CM>); mc::add("special matrix external double", matrices_inplace<double, cml::external<>, CB, RM>); mc::add("special matrix external fixed float", matrices_inplace<float, cml::external<2, 3>, RB, CM>); mc::add("special matrix dynamic unsigned", matrices_inplace<unsigned, cml::dynamic<>, RB, CM>);
mc::add("special quaternion double real first", quaternions_inplace<Q<double, cml::real_first, cml::positive_cross>>); mc::add("special quaternion double imaginary first", quaternions_inplace<Q<double, cml::imaginary_first, cml::negative_cross>>); mc::add("special quaternion float", quaternions_inplace<Q<float, cml::imaginary_first, cml::positive_cross>>);
} } r; }
