#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 2 float View Fixed", pairs<float, 2, View, Fixed>);
mc::add("pairs of 4 int View Fixed", pairs<int, 4, View, Fixed>);
mc::add("pairs of 3 int View Dynamic", pairs<int, 3, View, Dynamic>);
mc::add("pairs of 3 float View External", pairs<float, 3, View, External>);
mc::add("pairs of 1 int View ExternalDyn", pairs<int, 1, View, ExternalDyn>);
mc::add("pairs of 2 double View ConstExternal", pairs<double, 2, View, ConstExternal>);
mc::add("pairs of 4 float View ConstExternal", pairs<float, 4, View, ConstExternal>);
mc::add("pairs of 3 float View Expr", pairs<float, 3, View, Expr>);
mc::add("pairs of 3 double View View", pairs<double, 3, View, View>);
mc::add("pairs of 1 float View Temp", pairs<float, 1, View, Temp>);
mc::add("lengths 1 View", lengths<float, 1, View>);
mc::add("lengths 3 View", lengths<double, 3, View>);
mc::add("laws 2 View", laws<double, 2, View>);
mc::add("outer 2 3 View Temp", outers<double, 2, 3, View, Temp>);
mc::add("outer 1 4 View Temp", outers<double, 1, 4, View, Temp>);
} } r; }
