#include "print.h"
namespace g12 { namespace {
struct R { R() {
mc::add("vector double compiled 1", [] { vec_n<vector<double, compiled<1>>, double>(1); });
mc::add("vector double external 1", [] { vec_n<vector<double, external<1>>, double>(1); });
mc::add("vector const double external 1", [] { vec_n<vector<const double, external<1>>, double>(1); });
mc::add("vector double compiled 2", [] { vec_n<vector<double, compiled<2>>, double>(2); });
mc::add("vector double external 2", [] { vec_n<vector<double, external<2>>, double>(2); });
mc::add("vector const double external 2", [] { vec_n<vector<const double, external<2>>, double>(2); });
mc::add("vector double compiled 3", [] { vec_n<vector<double, compiled<3>>, double>(3); });
mc::add("vector double external 3", [] { vec_n<vector<double, external<3>>, double>(3); });
mc::add("vector const double external 3", [] { vec_n<vector<const double, external<3>>, double>(3); });
mc::add("vector double compiled 4", [] { vec_n<vector<double, compiled<4>>, double>(4); });
mc::add("vector double external 4", [] { vec_n<vector<double, external<4>>, double>(4); });
mc::add("vector const double external 4", [] { vec_n<vector<const double, external<4>>, double>(4); });
mc::add("vector double compiled 5", [] { vec_n<vector<double, compiled<5>>, double>(5); });
mc::add("vector double external 5", [] { vec_n<vector<double, external<5>>, double>(5); });
mc::add("vector const double external 5", [] { vec_n<vector<const double, external<5>>, double>(5); });
mc::add("vector double dynamic 0", [] { vec_n<vector<double, dynamic<>>, double>(0); });
mc::add("vector double external<> 0", [] { vec_n<vector<double, external<>>, double>(0); });
mc::add("vector const double external<> 0", [] { vec_n<vector<const double, external<>>, double>(0); });
mc::add("expressions double dynamic 0", [] { vec_expressions<vector<double, dynamic<>>, double>(0); });
mc::add("vector double dynamic 1", [] { vec_n<vector<double, dynamic<>>, double>(1); });
mc::add("vector double external<> 1", [] { vec_n<vector<double, external<>>, double>(1); });
mc::add("vector const double external<> 1", [] { vec_n<vector<const double, external<>>, double>(1); });
mc::add("expressions double dynamic 1", [] { vec_expressions<vector<double, dynamic<>>, double>(1); });
mc::add("expressions double compiled 1", [] { vec_expressions<vector<double, compiled<1>>, double>(1); });
mc::add("vector double dynamic 2", [] { vec_n<vector<double, dynamic<>>, double>(2); });
mc::add("vector double external<> 2", [] { vec_n<vector<double, external<>>, double>(2); });
mc::add("vector const double external<> 2", [] { vec_n<vector<const double, external<>>, double>(2); });
mc::add("expressions double dynamic 2", [] { vec_expressions<vector<double, dynamic<>>, double>(2); });
mc::add("expressions double compiled 2", [] { vec_expressions<vector<double, compiled<2>>, double>(2); });
mc::add("vector double dynamic 3", [] { vec_n<vector<double, dynamic<>>, double>(3); });
mc::add("vector double external<> 3", [] { vec_n<vector<double, external<>>, double>(3); });
mc::add("vector const double external<> 3", [] { vec_n<vector<const double, external<>>, double>(3); });
mc::add("expressions double dynamic 3", [] { vec_expressions<vector<double, dynamic<>>, double>(3); });
mc::add("expressions double compiled 3", [] { vec_expressions<vector<double, compiled<3>>, double>(3); });
mc::add("vector double dynamic 4", [] { vec_n<vector<double, dynamic<>>, double>(4); });
mc::add("vector double external<> 4", [] { vec_n<vector<double, external<>>, double>(4); });
mc::add("vector const double external<> 4", [] { vec_n<vector<const double, external<>>, double>(4); });
mc::add("expressions double dynamic 4", [] { vec_expressions<vector<double, dynamic<>>, double>(4); });
mc::add("expressions double compiled 4", [] { vec_expressions<vector<double, compiled<4>>, double>(4); });
mc::add("vector double dynamic 5", [] { vec_n<vector<double, dynamic<>>, double>(5); });
mc::add("vector double external<> 5", [] { vec_n<vector<double, external<>>, double>(5); });
mc::add("vector const double external<> 5", [] { vec_n<vector<const double, external<>>, double>(5); });
mc::add("expressions double dynamic 5", [] { vec_expressions<vector<double, dynamic<>>, double>(5); });
mc::add("expressions double compiled 5", [] { vec_expressions<vector<double, compiled<5>>, double>(5); });
mc::add("views double", [] { vec_views<double>(); });
} } r; } }
