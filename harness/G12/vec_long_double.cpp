#include "print.h"
namespace g12 { namespace {
struct R { R() {
mc::add("vector long double compiled 1", [] { vec_n<vector<long double, compiled<1>>, long double>(1); });
mc::add("vector long double compiled 2", [] { vec_n<vector<long double, compiled<2>>, long double>(2); });
mc::add("vector long double compiled 3", [] { vec_n<vector<long double, compiled<3>>, long double>(3); });
mc::add("vector long double compiled 4", [] { vec_n<vector<long double, compiled<4>>, long double>(4); });
mc::add("vector long double compiled 5", [] { vec_n<vector<long double, compiled<5>>, long double>(5); });
mc::add("vector long double dynamic 0", [] { vec_n<vector<long double, dynamic<>>, long double>(0); });
mc::add("expressions long double dynamic 0", [] { vec_expressions<vector<long double, dynamic<>>, long double>(0); });
mc::add("vector long double dynamic 1", [] { vec_n<vector<long double, dynamic<>>, long double>(1); });
mc::add("expressions long double dynamic 1", [] { vec_expressions<vector<long double, dynamic<>>, long double>(1); });
mc::add("expressions long double compiled 1", [] { vec_expressions<vector<long double, compiled<1>>, long double>(1); });
mc::add("vector long double dynamic 2", [] { vec_n<vector<long double, dynamic<>>, long double>(2); });
mc::add("expressions long double dynamic 2", [] { vec_expressions<vector<long double, dynamic<>>, long double>(2); });
mc::add("expressions long double compiled 2", [] { vec_expressions<vector<long double, compiled<2>>, long double>(2); });
mc::add("vector long double dynamic 3", [] { vec_n<vector<long double, dynamic<>>, long double>(3); });
mc::add("expressions long double dynamic 3", [] { vec_expressions<vector<long double, dynamic<>>, long double>(3); });
mc::add("expressions long double compiled 3", [] { vec_expressions<vector<long double, compiled<3>>, long double>(3); });
mc::add("vector long double dynamic 4", [] { vec_n<vector<long double, dynamic<>>, long double>(4); });
mc::add("expressions long double dynamic 4", [] { vec_expressions<vector<long double, dynamic<>>, long double>(4); });
mc::add("expressions long double compiled 4", [] { vec_expressions<vector<long double, compiled<4>>, long double>(4); });
mc::add("vector long double dynamic 5", [] { vec_n<vector<long double, dynamic<>>, long double>(5); });
mc::add("expressions long double dynamic 5", [] { vec_expressions<vector<long double, dynamic<>>, long double>(5); });
mc::add("expressions long double compiled 5", [] { vec_expressions<vector<long double, compiled<5>>, long double>(5); });
mc::add("views long double", [] { vec_views<long double>(); });
} } r; } }
