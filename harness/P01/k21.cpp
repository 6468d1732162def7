#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 3 float External Fixed", pairs<float, 3, External, Fixed>);
mc::add("pairs of 1 int External Dynamic", pairs<int, 1, External, Dynamic>);
mc::add("pairs of 2 double External External", pairs<double, 2, External, External>);
mc::add("pairs of 4 float External External", pairs<float, 4, External, External>);
mc::add("pairs of 3 float External ExternalDyn", pairs<float, 3, External, ExternalDyn>);
mc::add("pairs of 3 double External ConstExternal", pairs<double, 3, External, ConstExternal>);
mc::add("pairs of 1 float External Expr", pairs<float, 1, External, Expr>);
mc::add("pairs of 2 int External View", pairs<int, 2, External, View>);
mc::add("pairs of 4 double External View", pairs<double, 4, External, View>);
mc::add("pairs of 3 double External Temp", pairs<double, 3, External, Temp>);
mc::add("lengths 2 External", lengths<float, 2, External>);
mc::add("lengths 4 External", lengths<double, 4, External>);
mc::add("laws 3 External", laws<int, 3, External>);
mc::add("outer 3 2 External ExternalDyn", outers<double, 3, 2, External, ExternalDyn>);
mc::add("outer 4 2 External ExternalDyn", outers<double, 4, 2, External, ExternalDyn>);
} } r; }
