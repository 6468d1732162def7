#include "../mixwide.h"
namespace { struct R { R() {
mc::add("large vectors int double", mix::vectors<int, double, true>);
mc::add("large vectors float double", mix::vectors<float, double, false>);
mc::add("large vectors unsigned long long", mix::vectors<unsigned, long long, false>);
mc::add("large vectors double long double", mix::vectors<double, long double, false>);
} } r; }
