#include "print.h"
namespace g12 { namespace {
struct R { R() {
mc::add("vector int compiled 1", [] { vec_n<vector<int, compiled<1>>, int>(1); });
mc::add("vector int external 1", [] { vec_n<vector<int, external<1>>, int>(1); });
mc::add("vector const int external 1", [] { vec_n<vector<const int, external<1>>, int>(1); });
mc::add("vector int compiled 2", [] { vec_n<vector<int, compiled<2>>, int>(2); });
mc::add("vector int external 2", [] { vec_n<vector<int, external<2>>, int>(2); });
mc::add("vector const int external 2", [] { vec_n<vector<const int, external<2>>, int>(2); });
mc::add("vector int compiled 3", [] { vec_n<vector<int, compiled<3>>, int>(3); });
mc::add("vector int external 3", [] { vec_n<vector<int, external<3>>, int>(3); });
mc::add("vector const int external 3", [] { vec_n<vector<const int, external<3>>, int>(3); });
mc::add("vector int compiled 4", [] { vec_n<vector<int, compiled<4>>, int>(4); });
mc::add("vector int external 4", [] { vec_n<vector<int, external<4>>, int>(4); });
mc::add("vector const int external 4", [] { vec_n<vector<const int, external<4>>, int>(4); });
mc::add("vector int compiled 5", [] { vec_n<vector<int, compiled<5>>, int>(5); });
mc::add("vector int external 5", [] { vec_n<vector<int, external<5>>, int>(5); });
mc::add("vector const int external 5", [] { vec_n<vector<const int, external<5>>, int>(5); });
mc::add("vector int dynamic 0", [] { vec_n<vector<int, dynamic<>>, int>(0); });
mc::add("vector int external<> 0", [] { vec_n<vector<int, external<>>, int>(0); });
mc::add("vector const int external<> 0", [] { vec_n<vector<const int, external<>>, int>(0); });
mc::add("expressions int dynamic 0", [] { vec_expressions<vector<int, dynamic<>>, int>(0); });
mc::add("vector int dynamic 1", [] { vec_n<vector<int, dynamic<>>, int>(1); });
mc::add("vector int external<> 1", [] { vec_n<vector<int, external<>>, int>(1); });
mc::add("vector const int external<> 1", [] { vec_n<vector<const int, external<>>, int>(1); });
mc::add("expressions int dynamic 1", [] { vec_expressions<vector<int, dynamic<>>, int>(1); });
mc::add("expressions int compiled 1", [] { vec_expressions<vector<int, compiled<1>>, int>(1); });
mc::add("vector int dynamic 2", [] { vec_n<vector<int, dynamic<>>, int>(2); });
mc::add("vector int external<> 2", [] { vec_n<vector<int, external<>>, int>(2); });
mc::add("vector const int external<> 2", [] { vec_n<vector<const int, external<>>, int>(2); });
mc::add("expressions int dynamic 2", [] { vec_expressions<vector<int, dynamic<>>, int>(2); });
mc::add("expressions int compiled 2", [] { vec_expressions<vector<int, compiled<2>>, int>(2); });
mc::add("vector int dynamic 3", [] { vec_n<vector<int, dynamic<>>, int>(3); });
mc::add("vector int external<> 3", [] { vec_n<vector<int, external<>>, int>(3); });
mc::add("vector const int external<> 3", [] { vec_n<vector<const int, external<>>, int>(3); });
mc::add("expressions int dynamic 3", [] { vec_expressions<vector<int, dynamic<>>, int>(3); });
mc::add("expressions int compiled 3", [] { vec_expressions<vector<int, compiled<3>>, int>(3); });
mc::add("vector int dynamic 4", [] { vec_n<vector<int, dynamic<>>, int>(4); });
mc::add("vector int external<> 4", [] { vec_n<vector<int, external<>>, int>(4); });
mc::add("vector const int external<> 4", [] { vec_n<vector<const int, external<>>, int>(4); });
mc::add("expressions int dynamic 4", [] { vec_expressions<vector<int, dynamic<>>, int>(4); });
mc::add("expressions int compiled 4", [] { vec_expressions<vector<int, compiled<4>>, int>(4); });
mc::add("vector int dynamic 5", [] { vec_n<vector<int, dynamic<>>, int>(5); });
mc::add("vector int external<> 5", [] { vec_n<vector<int, external<>>, int>(5); });
mc::add("vector const int external<> 5", [] { vec_n<vector<const int, external<>>, int>(5); });
mc::add("expressions int dynamic 5", [] { vec_expressions<vector<int, dynamic<>>, int>(5); });
mc::add("expressions int compiled 5", [] { vec_expressions<vector<int, compiled<5>>, int>(5); });
mc::add("views int", [] { vec_views<int>(); });
} } r; } }
