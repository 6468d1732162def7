#include "../special.h"
namespace { using namespace special; using RB = cml::row_basis; using CB = cml::col_basis; using RM = cml::row_major; using CM = cml::col_major; struct R { R() {
mc::add("special fixed double", matrix_products<double, cml::fixed<2, 3>, cml::fixed<3, 2>, RB, RM>); mc::add("special dynamic double", matrix_products<double, cml::dynamic<>, cml::dynamic<>, CB, CM>); mc::add("special external double", matrix_products<double, cml::external<>, cml::dynamic<>, RB, CM>); mc::add("special external fixed float", matrix_products<float, cml::external<2, 3>, cml::fixed<3, 2>, CB, RM>);
} } r; }
