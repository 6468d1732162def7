#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 2 double ConstExternal Fixed", pairs<double, 2, ConstExternal, Fixed>);
mc::add("pairs of 4 float ConstExternal Fixed", pairs<float, 4, ConstExternal, Fixed>);
mc::add("pairs of 3 float ConstExternal Dynamic", pairs<float, 3, ConstExternal, Dynamic>);
mc::add("pairs of 3 double ConstExternal External", pairs<double, 3, ConstExternal, External>);
mc::add("pairs of 1 float ConstExternal ExternalDyn", pairs<float, 1, ConstExternal, ExternalDyn>);
mc::add("pairs of 2 int ConstExternal ConstExternal", pairs<int, 2, ConstExternal, ConstExternal>);
mc::add("pairs of 4 double ConstExternal ConstExternal", pairs<double, 4, ConstExternal, ConstExternal>);
mc::add("pairs of 3 double ConstExternal Expr", pairs<double, 3, ConstExternal, Expr>);
mc::add("pairs of 3 int ConstExternal View", pairs<int, 3, ConstExternal, View>);
mc::add("pairs of 1 double ConstExternal Temp", pairs<double, 1, ConstExternal, Temp>);
mc::add("lengths 1 ConstExternal", lengths<int, 1, ConstExternal>);
mc::add("lengths 3 ConstExternal", lengths<double, 3, ConstExternal>);
mc::add("laws 2 ConstExternal", laws<double, 2, ConstExternal>);
mc::add("outer 2 3 ConstExternal Expr", outers<double, 2, 3, ConstExternal, Expr>);
mc::add("outer 1 4 ConstExternal Expr", outers<double, 1, 4, ConstExternal, Expr>);
} } r; }
