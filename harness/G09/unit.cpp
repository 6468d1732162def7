#include "random.h"
namespace g09 { namespace {
struct R { R() {
mc::add("unit double compiled<1> 1", [] { unit_n<vector<double, compiled<1>>>(1); });
mc::add("unit default double compiled<1> 1", [] { unit_default_n<vector<double, compiled<1>>>(1); });
mc::add("unit double compiled<2> 2", [] { unit_n<vector<double, compiled<2>>>(2); });
mc::add("unit default double compiled<2> 2", [] { unit_default_n<vector<double, compiled<2>>>(2); });
mc::add("unit double compiled<3> 3", [] { unit_n<vector<double, compiled<3>>>(3); });
mc::add("unit default double compiled<3> 3", [] { unit_default_n<vector<double, compiled<3>>>(3); });
mc::add("unit double compiled<4> 4", [] { unit_n<vector<double, compiled<4>>>(4); });
mc::add("unit default double compiled<4> 4", [] { unit_default_n<vector<double, compiled<4>>>(4); });
mc::add("unit double dynamic<> 3", [] { unit_n<vector<double, dynamic<>>>(3); });
mc::add("unit default double dynamic<> 3", [] { unit_default_n<vector<double, dynamic<>>>(3); });
mc::add("unit double dynamic<> 5", [] { unit_n<vector<double, dynamic<>>>(5); });
mc::add("unit default double dynamic<> 5", [] { unit_default_n<vector<double, dynamic<>>>(5); });
mc::add("unit double external<3> 3", [] { unit_n<vector<double, external<3>>>(3); });
mc::add("unit default double external<3> 3", [] { unit_default_n<vector<double, external<3>>>(3); });
mc::add("unit double external<> 2", [] { unit_n<vector<double, external<>>>(2); });
mc::add("unit default double external<> 2", [] { unit_default_n<vector<double, external<>>>(2); });
mc::add("sphere reach double 2", sphere_reach<double, 2>);
mc::add("cone reach double 2", cone_reach<double, 2>);
mc::add("sphere reach double 3", sphere_reach<double, 3>);
mc::add("cone reach double 3", cone_reach<double, 3>);
mc::add("unit float compiled<1> 1", [] { unit_n<vector<float, compiled<1>>>(1); });
mc::add("unit default float compiled<1> 1", [] { unit_default_n<vector<float, compiled<1>>>(1); });
mc::add("unit float compiled<2> 2", [] { unit_n<vector<float, compiled<2>>>(2); });
mc::add("unit default float compiled<2> 2", [] { unit_default_n<vector<float, compiled<2>>>(2); });
mc::add("unit float compiled<3> 3", [] { unit_n<vector<float, compiled<3>>>(3); });
mc::add("unit default float compiled<3> 3", [] { unit_default_n<vector<float, compiled<3>>>(3); });
mc::add("unit float compiled<4> 4", [] { unit_n<vector<float, compiled<4>>>(4); });
mc::add("unit default float compiled<4> 4", [] { unit_default_n<vector<float, compiled<4>>>(4); });
mc::add("unit float dynamic<> 3", [] { unit_n<vector<float, dynamic<>>>(3); });
mc::add("unit default float dynamic<> 3", [] { unit_default_n<vector<float, dynamic<>>>(3); });
mc::add("unit float dynamic<> 5", [] { unit_n<vector<float, dynamic<>>>(5); });
mc::add("unit default float dynamic<> 5", [] { unit_default_n<vector<float, dynamic<>>>(5); });
mc::add("unit float external<3> 3", [] { unit_n<vector<float, external<3>>>(3); });
mc::add("unit default float external<3> 3", [] { unit_default_n<vector<float, external<3>>>(3); });
mc::add("unit float external<> 2", [] { unit_n<vector<float, external<>>>(2); });
mc::add("unit default float external<> 2", [] { unit_default_n<vector<float, external<>>>(2); });
mc::add("sphere reach float 2", sphere_reach<float, 2>);
mc::add("cone reach float 2", cone_reach<float, 2>);
mc::add("sphere reach float 3", sphere_reach<float, 3>);
mc::add("cone reach float 3", cone_reach<float, 3>);
} } r; } }
