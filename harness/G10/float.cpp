#include "scalars.h"
namespace g10 { namespace {
struct R { R() {
mc::add("every float 0", [] { every_float(0); });
mc::add("every float 1", [] { every_float(1); });
mc::add("every float 2", [] { every_float(2); });
mc::add("every float 3", [] { every_float(3); });
mc::add("every float 4", [] { every_float(4); });
mc::add("every float 5", [] { every_float(5); });
mc::add("every float 6", [] { every_float(6); });
mc::add("every float 7", [] { every_float(7); });
} } r; } }
