#include "print.h"
namespace g12 { namespace {
struct R { R() {
mc::add("vector float compiled 1", [] { vec_n<vector<float, compiled<1>>, float>(1); });
mc::add("vector float compiled 2", [] { vec_n<vector<float, compiled<2>>, float>(2); });
mc::add("vector float compiled 3", [] { vec_n<vector<float, compiled<3>>, float>(3); });
mc::add("vector float compiled 4", [] { vec_n<vector<float, compiled<4>>, float>(4); });
mc::add("vector float compiled 5", [] { vec_n<vector<float, compiled<5>>, float>(5); });
mc::add("vector float dynamic 0", [] { vec_n<vector<float, dynamic<>>, float>(0); });
mc::add("expressions float dynamic 0", [] { vec_expressions<vector<float, dynamic<>>, float>(0); });
mc::add("vector float dynamic 1", [] { vec_n<vector<float, dynamic<>>, float>(1); });
mc::add("expressions float dynamic 1", [] { vec_expressions<vector<float, dynamic<>>, float>(1); });
mc::add("expressions float compiled 1", [] { vec_expressions<vector<float, compiled<1>>, float>(1); });
mc::add("vector float dynamic 2", [] { vec_n<vector<float, dynamic<>>, float>(2); });
mc::add("expressions float dynamic 2", [] { vec_expressions<vector<float, dynamic<>>, float>(2); });
mc::add("expressions float compiled 2", [] { vec_expressions<vector<float, compiled<2>>, float>(2); });
mc::add("vector float dynamic 3", [] { vec_n<vector<float, dynamic<>>, float>(3); });
mc::add("expressions float dynamic 3", [] { vec_expressions<vector<float, dynamic<>>, float>(3); });
mc::add("expressions float compiled 3", [] { vec_expressions<vector<float, compiled<3>>, float>(3); });
mc::add("vector float dynamic 4", [] { vec_n<vector<float, dynamic<>>, float>(4); });
mc::add("expressions float dynamic 4", [] { vec_expressions<vector<float, dynamic<>>, float>(4); });
mc::add("expressions float compiled 4", [] { vec_expressions<vector<float, compiled<4>>, float>(4); });
mc::add("vector float dynamic 5", [] { vec_n<vector<float, dynamic<>>, float>(5); });
mc::add("expressions float dynamic 5", [] { vec_expressions<vector<float, dynamic<>>, float>(5); });
mc::add("expressions float compiled 5", [] { vec_expressions<vector<float, compiled<5>>, float>(5); });
mc::add("views float", [] { vec_views<float>(); });
} } r; } }
