#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 1 double Fixed Fixed", pairs<double, 1, Fixed, Fixed>);
mc::add("pairs of 3 double Fixed Fixed", pairs<double, 3, Fixed, Fixed>);
mc::add("pairs of 1 double Fixed Dynamic", pairs<double, 1, Fixed, Dynamic>);
mc::add("pairs of 3 double Fixed Dynamic", pairs<double, 3, Fixed, Dynamic>);
mc::add("pairs of 2 int Fixed External", pairs<int, 2, Fixed, External>);
mc::add("pairs of 4 double Fixed External", pairs<double, 4, Fixed, External>);
mc::add("pairs of 3 double Fixed ExternalDyn", pairs<double, 3, Fixed, ExternalDyn>);
mc::add("pairs of 3 int Fixed ConstExternal", pairs<int, 3, Fixed, ConstExternal>);
mc::add("pairs of 1 double Fixed Expr", pairs<double, 1, Fixed, Expr>);
mc::add("pairs of 2 float Fixed View", pairs<float, 2, Fixed, View>);
mc::add("pairs of 4 int Fixed View", pairs<int, 4, Fixed, View>);
mc::add("pairs of 3 int Fixed Temp", pairs<int, 3, Fixed, Temp>);
mc::add("lengths 2 Fixed", lengths<int, 2, Fixed>);
mc::add("lengths 4 Fixed", lengths<float, 4, Fixed>);
mc::add("laws 3 Fixed", laws<int, 3, Fixed>);
mc::add("outer 3 2 Fixed Dynamic", outers<double, 3, 2, Fixed, Dynamic>);
mc::add("outer 4 2 Fixed Dynamic", outers<double, 4, 2, Fixed, Dynamic>);
} } r; }
