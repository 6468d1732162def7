#include "../mixwide.h"
namespace { struct R { R() {
mc::add("large mixed int double", mix::vectors<int, double, false>);
mc::add("large mixed double int", mix::vectors<double, int, false>);
mc::add("large mixed float double", mix::vectors<float, double, false>);
mc::add("large mixed double float", mix::vectors<double, float, false>);
mc::add("large mixed unsigned long long", mix::vectors<unsigned, long long, false>);
mc::add("large mixed long long unsigned", mix::vectors<long long, unsigned, false>);
} } r; }
