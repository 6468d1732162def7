#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 1 int ExternalDyn Fixed", pairs<int, 1, ExternalDyn, Fixed>);
mc::add("pairs of 2 double ExternalDyn Dynamic", pairs<double, 2, ExternalDyn, Dynamic>);
mc::add("pairs of 4 float ExternalDyn Dynamic", pairs<float, 4, ExternalDyn, Dynamic>);
mc::add("pairs of 3 float ExternalDyn External", pairs<float, 3, ExternalDyn, External>);
mc::add("pairs of 3 double ExternalDyn ExternalDyn", pairs<double, 3, ExternalDyn, ExternalDyn>);
mc::add("pairs of 1 float ExternalDyn ConstExternal", pairs<float, 1, ExternalDyn, ConstExternal>);
mc::add("pairs of 2 int ExternalDyn Expr", pairs<int, 2, ExternalDyn, Expr>);
mc::add("pairs of 4 double ExternalDyn Expr", pairs<double, 4, ExternalDyn, Expr>);
mc::add("pairs of 3 double ExternalDyn View", pairs<double, 3, ExternalDyn, View>);
mc::add("pairs of 3 int ExternalDyn Temp", pairs<int, 3, ExternalDyn, Temp>);
mc::add("lengths 1 ExternalDyn", lengths<float, 1, ExternalDyn>);
mc::add("lengths 3 ExternalDyn", lengths<double, 3, ExternalDyn>);
mc::add("laws 2 ExternalDyn", laws<int, 2, ExternalDyn>);
mc::add("outer 2 3 ExternalDyn ConstExternal", outers<double, 2, 3, ExternalDyn, ConstExternal>);
mc::add("outer 1 4 ExternalDyn ConstExternal", outers<double, 1, 4, ExternalDyn, ConstExternal>);
} } r; }
