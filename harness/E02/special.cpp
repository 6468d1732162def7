#include "../special.h"
namespace { using namespace special; using RB = cml::row_basis; using CB = cml::col_basis; using RM = cml::row_major; using CM = cml::col_major; struct R { R() {
mc::add("special fixed double", matrices<double, cml::fixed<2, 3>, RB, RM>); mc::add("special dynamic double", matrices<double, cml::dynamic<>, CB, CM>); mc::add("special external double", matrices<double, cml::external<>, CB, RM>); mc::add("special external fixed float", matrices<float, cml::external<2, 3>, RB, CM>);
mc::add("special dynamic float", matrices<float, cml::dynamic<>, RB, RM>); mc::add("special fixed long double", matrices<long double, cml::fixed<2, 3>, CB, CM>); mc::add("special fixed unsigned", matrices<unsigned, cml::fixed<2, 3>, RB, CM>); mc::add("special dynamic unsigned", matrices<unsigned, cml::dynamic<>, CB, RM>);
} } r; }
