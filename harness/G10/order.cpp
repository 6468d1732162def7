#include "scalars.h"
namespace g10 { namespace {
struct R { R() {
mc::add("order float", [] { order<float>(); });
mc::add("order double", [] { order<double>(); });
mc::add("order long double", [] { order<long double>(); });
mc::add("order int", [] { order<int>(); });
mc::add("order short", [] { order<short>(); });
mc::add("order long", [] { order<long>(); });
mc::add("order unsigned", [] { order<unsigned>(); });
mc::add("order unsigned char", [] { order<unsigned char>(); });
mc::add("wrap whole int", [] { wrap_int<int>(); });
mc::add("wrap whole short", [] { wrap_int<short>(); });
mc::add("wrap whole long", [] { wrap_int<long>(); });
mc::add("wrap whole unsigned", [] { wrap_int<unsigned>(); });
mc::add("wrap whole unsigned char", [] { wrap_int<unsigned char>(); });
mc::add("wrap whole float", [] { wrap_int<float>(); });
mc::add("wrap exact float", [] { wrap_exact<float>(); });
mc::add("wrap exact double", [] { wrap_exact<double>(); });
mc::add("wrap angle float", [] { wrap_angle<float>(); });
mc::add("wrap angle double", [] { wrap_angle<double>(); });
mc::add("wrap angle long double", [] { wrap_angle<long double>(); });
mc::add("map float", [] { map_real<float>(); });
mc::add("map double", [] { map_real<double>(); });
mc::add("map long double", [] { map_real<long double>(); });
mc::add("map whole int", [] { map_int<int>(); });
mc::add("map whole short", [] { map_int<short>(); });
mc::add("map whole long", [] { map_int<long>(); });
mc::add("map whole unsigned", [] { map_int<unsigned>(); });
mc::add("map whole unsigned char", [] { map_int<unsigned char>(); });
} } r; } }
