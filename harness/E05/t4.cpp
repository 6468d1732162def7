#include "mixed.h"
namespace { struct R { R() { using namespace e05; mc::add("vector double (kind 4) with int (kind 1)", vectors<double, int, 4, 1>);
mc::add("matrix double with int", matrices<double, int>);
mc::add("vector double (kind 0) with unsigned (kind 4)", vectors<double, unsigned, 0, 4>);
mc::add("matrix double with unsigned", matrices<double, unsigned>);
mc::add("vector double (kind 2) with long long (kind 2)", vectors<double, long long, 2, 2>);
mc::add("matrix double with long long", matrices<double, long long>);
mc::add("vector double (kind 0) with float (kind 0)", vectors<double, float, 0, 0>);
mc::add("matrix double with float", matrices<double, float>);
mc::add("vector double (kind 0) with double (kind 1)", vectors<double, double, 0, 1>);
mc::add("matrix double with double", matrices<double, double>);
mc::add("vector double (kind 1) with long double (kind 0)", vectors<double, long double, 1, 0>);
mc::add("matrix double with long double", matrices<double, long double>);
mc::add("quaternion double with float", quaternions<double, float>);
mc::add("quaternion double with double", quaternions<double, double>);
mc::add("quaternion double with long double", quaternions<double, long double>); } } r; }
