#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 3 double ExternalDyn Fixed", pairs<double, 3, ExternalDyn, Fixed>);
mc::add("pairs of 3 int ExternalDyn Dynamic", pairs<int, 3, ExternalDyn, Dynamic>);
mc::add("pairs of 1 double ExternalDyn External", pairs<double, 1, ExternalDyn, External>);
mc::add("pairs of 2 float ExternalDyn ExternalDyn", pairs<float, 2, ExternalDyn, ExternalDyn>);
mc::add("pairs of 4 int ExternalDyn ExternalDyn", pairs<int, 4, ExternalDyn, ExternalDyn>);
mc::add("pairs of 3 int ExternalDyn ConstExternal", pairs<int, 3, ExternalDyn, ConstExternal>);
mc::add("pairs of 3 float ExternalDyn Expr", pairs<float, 3, ExternalDyn, Expr>);
mc::add("pairs of 1 int ExternalDyn View", pairs<int, 1, ExternalDyn, View>);
mc::add("pairs of 2 double ExternalDyn Temp", pairs<double, 2, ExternalDyn, Temp>);
mc::add("pairs of 4 float ExternalDyn Temp", pairs<float, 4, ExternalDyn, Temp>);
mc::add("lengths 2 ExternalDyn", lengths<int, 2, ExternalDyn>);
mc::add("lengths 4 ExternalDyn", lengths<float, 4, ExternalDyn>);
mc::add("laws 3 ExternalDyn", laws<double, 3, ExternalDyn>);
mc::add("outer 3 2 ExternalDyn ConstExternal", outers<double, 3, 2, ExternalDyn, ConstExternal>);
mc::add("outer 4 2 ExternalDyn ConstExternal", outers<double, 4, 2, ExternalDyn, ConstExternal>);
} } r; }
