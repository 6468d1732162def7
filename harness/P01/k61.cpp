#include "prod.h"
namespace { struct R { R() { using namespace p01;
mc::add("pairs of 3 double View Fixed", pairs<double, 3, View, Fixed>);
mc::add("pairs of 1 float View Dynamic", pairs<float, 1, View, Dynamic>);
mc::add("pairs of 2 int View External", pairs<int, 2, View, External>);
mc::add("pairs of 4 double View External", pairs<double, 4, View, External>);
mc::add("pairs of 3 double View ExternalDyn", pairs<double, 3, View, ExternalDyn>);
mc::add("pairs of 3 int View ConstExternal", pairs<int, 3, View, ConstExternal>);
mc::add("pairs of 1 double View Expr", pairs<double, 1, View, Expr>);
mc::add("pairs of 2 float View View", pairs<float, 2, View, View>);
mc::add("pairs of 4 int View View", pairs<int, 4, View, View>);
mc::add("pairs of 3 int View Temp", pairs<int, 3, View, Temp>);
mc::add("lengths 2 View", lengths<int, 2, View>);
mc::add("lengths 4 View", lengths<float, 4, View>);
mc::add("laws 3 View", laws<int, 3, View>);
mc::add("outer 3 2 View Temp", outers<double, 3, 2, View, Temp>);
mc::add("outer 4 2 View Temp", outers<double, 4, 2, View, Temp>);
} } r; }
