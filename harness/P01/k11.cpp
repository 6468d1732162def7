#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 2 double Dynamic Fixed", pairs<double, 2, Dynamic, Fixed>);
mc::add("pairs of 4 double Dynamic Fixed", pairs<double, 4, Dynamic, Fixed>);
mc::add("pairs of 2 double Dynamic Dynamic", pairs<double, 2, Dynamic, Dynamic>);
mc::add("pairs of 4 double Dynamic Dynamic", pairs<double, 4, Dynamic, Dynamic>);
mc::add("pairs of 3 double Dynamic External", pairs<double, 3, Dynamic, External>);
mc::add("pairs of 3 int Dynamic ExternalDyn", pairs<int, 3, Dynamic, ExternalDyn>);
mc::add("pairs of 1 double Dynamic ConstExternal", pairs<double, 1, Dynamic, ConstExternal>);
mc::add("pairs of 2 float Dynamic Expr", pairs<float, 2, Dynamic, Expr>);
mc::add("pairs of 4 int Dynamic Expr", pairs<int, 4, Dynamic, Expr>);
mc::add("pairs of 3 int Dynamic View", pairs<int, 3, Dynamic, View>);
mc::add("pairs of 3 float Dynamic Temp", pairs<float, 3, Dynamic, Temp>);
mc::add("lengths 1 Dynamic", lengths<int, 1, Dynamic>);
mc::add("lengths 3 Dynamic", lengths<double, 3, Dynamic>);
mc::add("laws 2 Dynamic", laws<int, 2, Dynamic>);
mc::add("outer 2 3 Dynamic External", outers<double, 2, 3, Dynamic, External>);
mc::add("outer 1 4 Dynamic External", outers<double, 1, 4, Dynamic, External>);
} } r; }
