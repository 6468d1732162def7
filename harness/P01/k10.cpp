#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 1 double Dynamic Fixed", pairs<double, 1, Dynamic, Fixed>);
mc::add("pairs of 3 double Dynamic Fixed", pairs<double, 3, Dynamic, Fixed>);
mc::add("pairs of 1 double Dynamic Dynamic", pairs<double, 1, Dynamic, Dynamic>);
mc::add("pairs of 3 double Dynamic Dynamic", pairs<double, 3, Dynamic, Dynamic>);
mc::add("pairs of 1 int Dynamic External", pairs<int, 1, Dynamic, External>);
mc::add("pairs of 2 double Dynamic ExternalDyn", pairs<double, 2, Dynamic, ExternalDyn>);
mc::add("pairs of 4 float Dynamic ExternalDyn", pairs<float, 4, Dynamic, ExternalDyn>);
mc::add("pairs of 3 float Dynamic ConstExternal", pairs<float, 3, Dynamic, ConstExternal>);
mc::add("pairs of 3 double Dynamic Expr", pairs<double, 3, Dynamic, Expr>);
mc::add("pairs of 1 float Dynamic View", pairs<float, 1, Dynamic, View>);
mc::add("pairs of 2 int Dynamic Temp", pairs<int, 2, Dynamic, Temp>);
mc::add("pairs of 4 double Dynamic Temp", pairs<double, 4, Dynamic, Temp>);
mc::add("lengths 2 Dynamic", lengths<double, 2, Dynamic>);
mc::add("lengths 4 Dynamic", lengths<int, 4, Dynamic>);
mc::add("laws 3 Dynamic", laws<double, 3, Dynamic>);
mc::add("outer 3 2 Dynamic External", outers<double, 3, 2, Dynamic, External>);
mc::add("outer 4 2 Dynamic External", outers<double, 4, 2, Dynamic, External>);
} } r; }
