#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 3 float Expr Fixed", pairs<float, 3, Expr, Fixed>);
mc::add("pairs of 3 double Expr Dynamic", pairs<double, 3, Expr, Dynamic>);
mc::add("pairs of 1 float Expr External", pairs<float, 1, Expr, External>);
mc::add("pairs of 2 int Expr ExternalDyn", pairs<int, 2, Expr, ExternalDyn>);
mc::add("pairs of 4 double Expr ExternalDyn", pairs<double, 4, Expr, ExternalDyn>);
mc::add("pairs of 3 double Expr ConstExternal", pairs<double, 3, Expr, ConstExternal>);
mc::add("pairs of 3 int Expr Expr", pairs<int, 3, Expr, Expr>);
mc::add("pairs of 1 double Expr View", pairs<double, 1, Expr, View>);
mc::add("pairs of 2 float Expr Temp", pairs<float, 2, Expr, Temp>);
mc::add("pairs of 4 int Expr Temp", pairs<int, 4, Expr, Temp>);
mc::add("lengths 2 Expr", lengths<float, 2, Expr>);
mc::add("lengths 4 Expr", lengths<double, 4, Expr>);
mc::add("laws 3 Expr", laws<double, 3, Expr>);
mc::add("outer 3 2 Expr View", outers<double, 3, 2, Expr, View>);
mc::add("outer 4 2 Expr View", outers<double, 4, 2, Expr, View>);
} } r; }
