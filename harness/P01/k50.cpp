#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 1 double Expr Fixed", pairs<double, 1, Expr, Fixed>);
mc::add("pairs of 2 float Expr Dynamic", pairs<float, 2, Expr, Dynamic>);
mc::add("pairs of 4 int Expr Dynamic", pairs<int, 4, Expr, Dynamic>);
mc::add("pairs of 3 int Expr External", pairs<int, 3, Expr, External>);
mc::add("pairs of 3 float Expr ExternalDyn", pairs<float, 3, Expr, ExternalDyn>);
mc::add("pairs of 1 int Expr ConstExternal", pairs<int, 1, Expr, ConstExternal>);
mc::add("pairs of 2 double Expr Expr", pairs<double, 2, Expr, Expr>);
mc::add("pairs of 4 float Expr Expr", pairs<float, 4, Expr, Expr>);
mc::add("pairs of 3 float Expr View", pairs<float, 3, Expr, View>);
mc::add("pairs of 3 double Expr Temp", pairs<double, 3, Expr, Temp>);
mc::add("lengths 1 Expr", lengths<double, 1, Expr>);
mc::add("lengths 3 Expr", lengths<double, 3, Expr>);
mc::add("laws 2 Expr", laws<int, 2, Expr>);
mc::add("outer 2 3 Expr View", outers<double, 2, 3, Expr, View>);
mc::add("outer 1 4 Expr View", outers<double, 1, 4, Expr, View>);
} } r; }
