#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 1 float Temp Fixed", pairs<float, 1, Temp, Fixed>);
mc::add("pairs of 2 int Temp Dynamic", pairs<int, 2, Temp, Dynamic>);
mc::add("pairs of 4 double Temp Dynamic", pairs<double, 4, Temp, Dynamic>);
mc::add("pairs of 3 double Temp External", pairs<double, 3, Temp, External>);
mc::add("pairs of 3 int Temp ExternalDyn", pairs<int, 3, Temp, ExternalDyn>);
mc::add("pairs of 1 double Temp ConstExternal", pairs<double, 1, Temp, ConstExternal>);
mc::add("pairs of 2 float Temp Expr", pairs<float, 2, Temp, Expr>);
mc::add("pairs of 4 int Temp Expr", pairs<int, 4, Temp, Expr>);
mc::add("pairs of 3 int Temp View", pairs<int, 3, Temp, View>);
mc::add("pairs of 3 float Temp Temp", pairs<float, 3, Temp, Temp>);
mc::add("lengths 1 Temp", lengths<int, 1, Temp>);
mc::add("lengths 3 Temp", lengths<double, 3, Temp>);
mc::add("laws 2 Temp", laws<int, 2, Temp>);
mc::add("outer 2 3 Temp Fixed", outers<double, 2, 3, Temp, Fixed>);
mc::add("outer 1 4 Temp Fixed", outers<double, 1, 4, Temp, Fixed>);
} } r; }
