#include "../special.h"
namespace { using namespace special; struct R { R() {
mc::add("special fixed double", vector_products<double, cml::fixed<3>>); mc::add("special dynamic double", vector_products<double, cml::dynamic<>>); mc::add("special external double", vector_products<double, cml::external<>>); mc::add("special external fixed float", vector_products<float, cml::external<3>>);
} } r; }
