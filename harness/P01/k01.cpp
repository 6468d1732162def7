#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 2 double Fixed Fixed", pairs<double, 2, Fixed, Fixed>);
mc::add("pairs of 4 double Fixed Fixed", pairs<double, 4, Fixed, Fixed>);
mc::add("pairs of 2 double Fixed Dynamic", pairs<double, 2, Fixed, Dynamic>);
mc::add("pairs of 4 double Fixed Dynamic", pairs<double, 4, Fixed, Dynamic>);
mc::add("pairs of 3 float Fixed External", pairs<float, 3, Fixed, External>);
mc::add("pairs of 1 int Fixed ExternalDyn", pairs<int, 1, Fixed, ExternalDyn>);
mc::add("pairs of 2 double Fixed ConstExternal", pairs<double, 2, Fixed, ConstExternal>);
mc::add("pairs of 4 float Fixed ConstExternal", pairs<float, 4, Fixed, ConstExternal>);
mc::add("pairs of 3 float Fixed Expr", pairs<float, 3, Fixed, Expr>);
mc::add("pairs of 3 double Fixed View", pairs<double, 3, Fixed, View>);
mc::add("pairs of 1 float Fixed Temp", pairs<float, 1, Fixed, Temp>);
mc::add("lengths 1 Fixed", lengths<float, 1, Fixed>);
mc::add("lengths 3 Fixed", lengths<double, 3, Fixed>);
mc::add("laws 2 Fixed", laws<double, 2, Fixed>);
mc::add("outer 2 3 Fixed Dynamic", outers<double, 2, 3, Fixed, Dynamic>);
mc::add("outer 1 4 Fixed Dynamic", outers<double, 1, 4, Fixed, Dynamic>);
} } r; }
