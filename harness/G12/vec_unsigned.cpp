#include "print.h"
namespace g12 { namespace {
struct R { R() {
mc::add("vector unsigned compiled 1", [] { vec_n<vector<unsigned, compiled<1>>, unsigned>(1); });
mc::add("vector unsigned compiled 2", [] { vec_n<vector<unsigned, compiled<2>>, unsigned>(2); });
mc::add("vector unsigned compiled 3", [] { vec_n<vector<unsigned, compiled<3>>, unsigned>(3); });
mc::add("vector unsigned compiled 4", [] { vec_n<vector<unsigned, compiled<4>>, unsigned>(4); });
mc::add("vector unsigned compiled 5", [] { vec_n<vector<unsigned, compiled<5>>, unsigned>(5); });
mc::add("vector unsigned dynamic 0", [] { vec_n<vector<unsigned, dynamic<>>, unsigned>(0); });
mc::add("expressions unsigned dynamic 0", [] { vec_expressions<vector<unsigned, dynamic<>>, unsigned>(0); });
mc::add("vector unsigned dynamic 1", [] { vec_n<vector<unsigned, dynamic<>>, unsigned>(1); });
mc::add("expressions unsigned dynamic 1", [] { vec_expressions<vector<unsigned, dynamic<>>, unsigned>(1); });
mc::add("expressions unsigned compiled 1", [] { vec_expressions<vector<unsigned, compiled<1>>, unsigned>(1); });
mc::add("vector unsigned dynamic 2", [] { vec_n<vector<unsigned, dynamic<>>, unsigned>(2); });
mc::add("expressions unsigned dynamic 2", [] { vec_expressions<vector<unsigned, dynamic<>>, unsigned>(2); });
mc::add("expressions unsigned compiled 2", [] { vec_expressions<vector<unsigned, compiled<2>>, unsigned>(2); });
mc::add("vector unsigned dynamic 3", [] { vec_n<vector<unsigned, dynamic<>>, unsigned>(3); });
mc::add("expressions unsigned dynamic 3", [] { vec_expressions<vector<unsigned, dynamic<>>, unsigned>(3); });
mc::add("expressions unsigned compiled 3", [] { vec_expressions<vector<unsigned, compiled<3>>, unsigned>(3); });
mc::add("vector unsigned dynamic 4", [] { vec_n<vector<unsigned, dynamic<>>, unsigned>(4); });
mc::add("expressions unsigned dynamic 4", [] { vec_expressions<vector<unsigned, dynamic<>>, unsigned>(4); });
mc::add("expressions unsigned compiled 4", [] { vec_expressions<vector<unsigned, compiled<4>>, unsigned>(4); });
mc::add("vector unsigned dynamic 5", [] { vec_n<vector<unsigned, dynamic<>>, unsigned>(5); });
mc::add("expressions unsigned dynamic 5", [] { vec_expressions<vector<unsigned, dynamic<>>, unsigned>(5); });
mc::add("expressions unsigned compiled 5", [] { vec_expressions<vector<unsigned, compiled<5>>, unsigned>(5); });
mc::add("views unsigned", [] { vec_views<unsigned>(); });
} } r; } }
