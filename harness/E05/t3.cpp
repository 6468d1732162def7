#include "mixed.h"
namespace { struct R { R() { using namespace e05; mc::add("vector float (kind 0) with int (kind 0)", vectors<float, int, 0, 0>);
mc::add("matrix float with int", matrices<float, int>);
mc::add("vector float (kind 0) with unsigned (kind 1)", vectors<float, unsigned, 0, 1>);
mc::add("matrix float with unsigned", matrices<float, unsigned>);
mc::add("vector float (kind 1) with long long (kind 0)", vectors<float, long long, 1, 0>);
mc::add("matrix float with long long", matrices<float, long long>);
mc::add("vector float (kind 1) with float (kind 2)", vectors<float, float, 1, 2>);
mc::add("matrix float with float", matrices<float, float>);
mc::add("vector float (kind 2) with double (kind 3)", vectors<float, double, 2, 3>);
mc::add("matrix float with double", matrices<float, double>);
mc::add("vector float (kind 3) with long double (kind 0)", vectors<float, long double, 3, 0>);
mc::add("matrix float with long double", matrices<float, long double>);
mc::add("quaternion float with float", quaternions<float, float>);
mc::add("quaternion float with double", quaternions<float, double>);
mc::add("quaternion float with long double", quaternions<float, long double>); } } r; }
