#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 3 int Temp Fixed", pairs<int, 3, Temp, Fixed>);
mc::add("pairs of 3 float Temp Dynamic", pairs<float, 3, Temp, Dynamic>);
mc::add("pairs of 1 int Temp External", pairs<int, 1, Temp, External>);
mc::add("pairs of 2 double Temp ExternalDyn", pairs<double, 2, Temp, ExternalDyn>);
mc::add("pairs of 4 float Temp ExternalDyn", pairs<float, 4, Temp, ExternalDyn>);
mc::add("pairs of 3 float Temp ConstExternal", pairs<float, 3, Temp, ConstExternal>);
mc::add("pairs of 3 double Temp Expr", pairs<double, 3, Temp, Expr>);
mc::add("pairs of 1 float Temp View", pairs<float, 1, Temp, View>);
mc::add("pairs of 2 int Temp Temp", pairs<int, 2, Temp, Temp>);
mc::add("pairs of 4 double Temp Temp", pairs<double, 4, Temp, Temp>);
mc::add("lengths 2 Temp", lengths<double, 2, Temp>);
mc::add("lengths 4 Temp", lengths<int, 4, Temp>);
mc::add("laws 3 Temp", laws<double, 3, Temp>);
mc::add("outer 3 2 Temp Fixed", outers<double, 3, 2, Temp, Fixed>);
mc::add("outer 4 2 Temp Fixed", outers<double, 4, 2, Temp, Fixed>);
} } r; }
