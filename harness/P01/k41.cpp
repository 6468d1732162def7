#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 3 int ConstExternal Fixed", pairs<int, 3, ConstExternal, Fixed>);
mc::add("pairs of 1 double ConstExternal Dynamic", pairs<double, 1, ConstExternal, Dynamic>);
mc::add("pairs of 2 float ConstExternal External", pairs<float, 2, ConstExternal, External>);
mc::add("pairs of 4 int ConstExternal External", pairs<int, 4, ConstExternal, External>);
mc::add("pairs of 3 int ConstExternal ExternalDyn", pairs<int, 3, ConstExternal, ExternalDyn>);
mc::add("pairs of 3 float ConstExternal ConstExternal", pairs<float, 3, ConstExternal, ConstExternal>);
mc::add("pairs of 1 int ConstExternal Expr", pairs<int, 1, ConstExternal, Expr>);
mc::add("pairs of 2 double ConstExternal View", pairs<double, 2, ConstExternal, View>);
mc::add("pairs of 4 float ConstExternal View", pairs<float, 4, ConstExternal, View>);
mc::add("pairs of 3 float ConstExternal Temp", pairs<float, 3, ConstExternal, Temp>);
mc::add("lengths 2 ConstExternal", lengths<double, 2, ConstExternal>);
mc::add("lengths 4 ConstExternal", lengths<int, 4, ConstExternal>);
mc::add("laws 3 ConstExternal", laws<int, 3, ConstExternal>);
mc::add("outer 3 2 ConstExternal Expr", outers<double, 3, 2, ConstExternal, Expr>);
mc::add("outer 4 2 ConstExternal Expr", outers<double, 4, 2, ConstExternal, Expr>);
} } r; }
