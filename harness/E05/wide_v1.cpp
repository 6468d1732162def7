#include "../mixwide.h"
namespace { struct R { R() {
mc::add("large vectors double int", mix::vectors<double, int, false>);
mc::add("large vectors double float", mix::vectors<double, float, true>);
mc::add("large vectors long long unsigned", mix::vectors<long long, unsigned, false>);
mc::add("large vectors int float", mix::vectors<int, float, false>);
} } r; }
