#include "scalars.h"
namespace g10 { namespace {
struct R { R() {
mc::add("cycling", [] { cycling(); });
mc::add("permutations", [] { permutations(); });
mc::add("orders", [] { orders(); });
mc::add("extremes float", [] { extremes<float>(); });
mc::add("extremes double", [] { extremes<double>(); });
mc::add("extremes int", [] { extremes<int>(); });
mc::add("extremes long", [] { extremes<long>(); });
mc::add("extremes unsigned", [] { extremes<unsigned>(); });
} } r; } }
