#include "../special.h"
namespace { using namespace special; struct R { R() {
mc::add("special fixed double", vectors<double, cml::fixed<3>>); mc::add("special dynamic double", vectors<double, cml::dynamic<>>); mc::add("special external double", vectors<double, cml::external<>>); mc::add("special external fixed float", vectors<float, cml::external<3>>);
mc::add("special dynamic float", vectors<float, cml::dynamic<>>); mc::add("special fixed long double", vectors<long double, cml::fixed<3>>); mc::add("special fixed unsigned", vectors<unsigned, cml::fixed<3>>); mc::add("special dynamic unsigned", vectors<unsigned, cml::dynamic<>>); mc::add("special fixed unsigned long", vectors<unsigned long, cml::fixed<3>>);
} } r; }
