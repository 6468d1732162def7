#include "mixed.h"
namespace { struct R { R() { using namespace e05; mc::add("vector int (kind 0) with int (kind 0)", vectors<int, int, 0, 0>);
mc::add("matrix int with int", matrices<int, int>);
mc::add("vector int (kind 0) with unsigned (kind 1)", vectors<int, unsigned, 0, 1>);
mc::add("matrix int with unsigned", matrices<int, unsigned>);
mc::add("vector int (kind 1) with long long (kind 0)", vectors<int, long long, 1, 0>);
mc::add("matrix int with long long", matrices<int, long long>);
mc::add("vector int (kind 1) with float (kind 2)", vectors<int, float, 1, 2>);
mc::add("matrix int with float", matrices<int, float>);
mc::add("vector int (kind 2) with double (kind 3)", vectors<int, double, 2, 3>);
mc::add("matrix int with double", matrices<int, double>);
mc::add("vector int (kind 3) with long double (kind 0)", vectors<int, long double, 3, 0>);
mc::add("matrix int with long double", matrices<int, long double>); } } r; }
