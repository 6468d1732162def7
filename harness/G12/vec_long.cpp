#include "print.h"
namespace g12 { namespace {
struct R { R() {
mc::add("vector long compiled 1", [] { vec_n<vector<long, compiled<1>>, long>(1); });
mc::add("vector long compiled 2", [] { vec_n<vector<long, compiled<2>>, long>(2); });
mc::add("vector long compiled 3", [] { vec_n<vector<long, compiled<3>>, long>(3); });
mc::add("vector long compiled 4", [] { vec_n<vector<long, compiled<4>>, long>(4); });
mc::add("vector long compiled 5", [] { vec_n<vector<long, compiled<5>>, long>(5); });
mc::add("vector long dynamic 0", [] { vec_n<vector<long, dynamic<>>, long>(0); });
mc::add("expressions long dynamic 0", [] { vec_expressions<vector<long, dynamic<>>, long>(0); });
mc::add("vector long dynamic 1", [] { vec_n<vector<long, dynamic<>>, long>(1); });
mc::add("expressions long dynamic 1", [] { vec_expressions<vector<long, dynamic<>>, long>(1); });
mc::add("expressions long compiled 1", [] { vec_expressions<vector<long, compiled<1>>, long>(1); });
mc::add("vector long dynamic 2", [] { vec_n<vector<long, dynamic<>>, long>(2); });
mc::add("expressions long dynamic 2", [] { vec_expressions<vector<long, dynamic<>>, long>(2); });
mc::add("expressions long compiled 2", [] { vec_expressions<vector<long, compiled<2>>, long>(2); });
mc::add("vector long dynamic 3", [] { vec_n<vector<long, dynamic<>>, long>(3); });
mc::add("expressions long dynamic 3", [] { vec_expressions<vector<long, dynamic<>>, long>(3); });
mc::add("expressions long compiled 3", [] { vec_expressions<vector<long, compiled<3>>, long>(3); });
mc::add("vector long dynamic 4", [] { vec_n<vector<long, dynamic<>>, long>(4); });
mc::add("expressions long dynamic 4", [] { vec_expressions<vector<long, dynamic<>>, long>(4); });
mc::add("expressions long compiled 4", [] { vec_expressions<vector<long, compiled<4>>, long>(4); });
mc::add("vector long dynamic 5", [] { vec_n<vector<long, dynamic<>>, long>(5); });
mc::add("expressions long dynamic 5", [] { vec_expressions<vector<long, dynamic<>>, long>(5); });
mc::add("expressions long compiled 5", [] { vec_expressions<vector<long, compiled<5>>, long>(5); });
mc::add("views long", [] { vec_views<long>(); });
} } r; } }
