#include "mixed.h"
namespace { struct R { R() { using namespace e05; mc::add("vector long double (kind 1) with int (kind 2)", vectors<long double, int, 1, 2>);
mc::add("matrix long double with int", matrices<long double, int>);
mc::add("vector long double (kind 2) with unsigned (kind 3)", vectors<long double, unsigned, 2, 3>);
mc::add("matrix long double with unsigned", matrices<long double, unsigned>);
mc::add("vector long double (kind 3) with long long (kind 0)", vectors<long double, long long, 3, 0>);
mc::add("matrix long double with long long", matrices<long double, long long>);
mc::add("vector long double (kind 4) with float (kind 1)", vectors<long double, float, 4, 1>);
mc::add("matrix long double with float", matrices<long double, float>);
mc::add("vector long double (kind 0) with double (kind 4)", vectors<long double, double, 0, 4>);
mc::add("matrix long double with double", matrices<long double, double>);
mc::add("vector long double (kind 2) with long double (kind 2)", vectors<long double, long double, 2, 2>);
mc::add("matrix long double with long double", matrices<long double, long double>);
mc::add("quaternion long double with float", quaternions<long double, float>);
mc::add("quaternion long double with double", quaternions<long double, double>);
mc::add("quaternion long double with long double", quaternions<long double, long double>); } } r; }
