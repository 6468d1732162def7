#include "mixed.h"
namespace { struct R { R() { using namespace e05; mc::add("vector long long (kind 1) with int (kind 2)", vectors<long long, int, 1, 2>);
mc::add("matrix long long with int", matrices<long long, int>);
mc::add("vector long long (kind 2) with unsigned (kind 3)", vectors<long long, unsigned, 2, 3>);
mc::add("matrix long long with unsigned", matrices<long long, unsigned>);
mc::add("vector long long (kind 3) with long long (kind 0)", vectors<long long, long long, 3, 0>);
mc::add("matrix long long with long long", matrices<long long, long long>);
mc::add("vector long long (kind 4) with float (kind 1)", vectors<long long, float, 4, 1>);
mc::add("matrix long long with float", matrices<long long, float>);
mc::add("vector long long (kind 0) with double (kind 4)", vectors<long long, double, 0, 4>);
mc::add("matrix long long with double", matrices<long long, double>);
mc::add("vector long long (kind 2) with long double (kind 2)", vectors<long long, long double, 2, 2>);
mc::add("matrix long long with long double", matrices<long long, long double>); } } r; }
