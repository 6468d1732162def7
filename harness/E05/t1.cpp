#include "mixed.h"
namespace { struct R { R() { using namespace e05; mc::add("vector unsigned (kind 4) with int (kind 1)", vectors<unsigned, int, 4, 1>);
mc::add("matrix unsigned with int", matrices<unsigned, int>);
mc::add("vector unsigned (kind 0) with unsigned (kind 4)", vectors<unsigned, unsigned, 0, 4>);
mc::add("matrix unsigned with unsigned", matrices<unsigned, unsigned>);
mc::add("vector unsigned (kind 2) with long long (kind 2)", vectors<unsigned, long long, 2, 2>);
mc::add("matrix unsigned with long long", matrices<unsigned, long long>);
mc::add("vector unsigned (kind 0) with float (kind 0)", vectors<unsigned, float, 0, 0>);
mc::add("matrix unsigned with float", matrices<unsigned, float>);
mc::add("vector unsigned (kind 0) with double (kind 1)", vectors<unsigned, double, 0, 1>);
mc::add("matrix unsigned with double", matrices<unsigned, double>);
mc::add("vector unsigned (kind 1) with long double (kind 0)", vectors<unsigned, long double, 1, 0>);
mc::add("matrix unsigned with long double", matrices<unsigned, long double>); } } r; }
