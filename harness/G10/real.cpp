#include "scalars.h"
namespace g10 { namespace {
struct R { R() {
mc::add("reals float", [] { reals<float>(); });
mc::add("reals double", [] { reals<double>(); });
mc::add("reals long double", [] { reals<long double>(); });
mc::add("degrees float", [] { degrees<float>(); });
mc::add("degrees double", [] { degrees<double>(); });
mc::add("degrees long double", [] { degrees<long double>(); });
mc::add("lengths float", [] { lengths<float>(); });
mc::add("lengths double", [] { lengths<double>(); });
mc::add("lengths long double", [] { lengths<long double>(); });
mc::add("lengths int", [] { lengths<int>(); });
mc::add("lengths long", [] { lengths<long>(); });
mc::add("views float", [] { views<float>(); });
mc::add("views double", [] { views<double>(); });
mc::add("views long double", [] { views<long double>(); });
mc::add("named float", [] { named<float>(); });
mc::add("named double", [] { named<double>(); });
mc::add("named long double", [] { named<long double>(); });
mc::add("traits float", [] { traits_real<float>(); });
mc::add("traits double", [] { traits_real<double>(); });
mc::add("traits long double", [] { traits_real<long double>(); });
mc::add("traits int", [] { traits_int<int>(); });
mc::add("traits short", [] { traits_int<short>(); });
mc::add("traits long", [] { traits_int<long>(); });
mc::add("traits unsigned", [] { traits_int<unsigned>(); });
mc::add("traits unsigned char", [] { traits_int<unsigned char>(); });
} } r; } }
