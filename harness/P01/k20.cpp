#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 2 int External Fixed", pairs<int, 2, External, Fixed>);
mc::add("pairs of 4 double External Fixed", pairs<double, 4, External, Fixed>);
mc::add("pairs of 3 double External Dynamic", pairs<double, 3, External, Dynamic>);
mc::add("pairs of 3 int External External", pairs<int, 3, External, External>);
mc::add("pairs of 1 double External ExternalDyn", pairs<double, 1, External, ExternalDyn>);
mc::add("pairs of 2 float External ConstExternal", pairs<float, 2, External, ConstExternal>);
mc::add("pairs of 4 int External ConstExternal", pairs<int, 4, External, ConstExternal>);
mc::add("pairs of 3 int External Expr", pairs<int, 3, External, Expr>);
mc::add("pairs of 3 float External View", pairs<float, 3, External, View>);
mc::add("pairs of 1 int External Temp", pairs<int, 1, External, Temp>);
mc::add("lengths 1 External", lengths<double, 1, External>);
mc::add("lengths 3 External", lengths<double, 3, External>);
mc::add("laws 2 External", laws<double, 2, External>);
mc::add("outer 2 3 External ExternalDyn", outers<double, 2, 3, External, ExternalDyn>);
mc::add("outer 1 4 External ExternalDyn", outers<double, 1, 4, External, ExternalDyn>);
} } r; }
