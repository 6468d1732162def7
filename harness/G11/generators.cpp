#include "named.h"
namespace g11 { namespace {
struct R { R() {
mc::add("vector 1", [] { vec_n<1>(); });
mc::add("vector 2", [] { vec_n<2>(); });
mc::add("vector 3", [] { vec_n<3>(); });
mc::add("vector 4", [] { vec_n<4>(); });
mc::add("vector 5", [] { vec_n<5>(); });
mc::add("vector 6", [] { vec_n<6>(); });
mc::add("vector 7", [] { vec_n<7>(); });
mc::add("vector 8", [] { vec_n<8>(); });
mc::add("matrix 1x1", [] { mat_n<1, 1>(); });
mc::add("matrix 1x2", [] { mat_n<1, 2>(); });
mc::add("matrix 1x3", [] { mat_n<1, 3>(); });
mc::add("matrix 1x4", [] { mat_n<1, 4>(); });
mc::add("matrix 2x1", [] { mat_n<2, 1>(); });
mc::add("matrix 2x2", [] { mat_n<2, 2>(); });
mc::add("matrix 2x3", [] { mat_n<2, 3>(); });
mc::add("matrix 2x4", [] { mat_n<2, 4>(); });
mc::add("matrix 3x1", [] { mat_n<3, 1>(); });
mc::add("matrix 3x2", [] { mat_n<3, 2>(); });
mc::add("matrix 3x3", [] { mat_n<3, 3>(); });
mc::add("matrix 3x4", [] { mat_n<3, 4>(); });
mc::add("matrix 4x1", [] { mat_n<4, 1>(); });
mc::add("matrix 4x2", [] { mat_n<4, 2>(); });
mc::add("matrix 4x3", [] { mat_n<4, 3>(); });
mc::add("matrix 4x4", [] { mat_n<4, 4>(); });
mc::add("named vectors", [] { vec_named(); });
mc::add("named matrices", [] { mat_named(); });
} } r; } }
