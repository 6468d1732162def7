#include "random.h"
namespace g09 { namespace {
struct R { R() {
mc::add("cone double compiled<1> compiled<1> 1", [] { cone_n<vector<double, compiled<1>>, vector<double, compiled<1>>, double>(1); });
mc::add("cone double compiled<2> compiled<2> 2", [] { cone_n<vector<double, compiled<2>>, vector<double, compiled<2>>, double>(2); });
mc::add("cone double compiled<3> compiled<3> 3", [] { cone_n<vector<double, compiled<3>>, vector<double, compiled<3>>, double>(3); });
mc::add("cone double compiled<4> compiled<4> 4", [] { cone_n<vector<double, compiled<4>>, vector<double, compiled<4>>, double>(4); });
mc::add("cone double dynamic<> dynamic<> 2", [] { cone_n<vector<double, dynamic<>>, vector<double, dynamic<>>, double>(2); });
mc::add("cone double dynamic<> dynamic<> 3", [] { cone_n<vector<double, dynamic<>>, vector<double, dynamic<>>, double>(3); });
mc::add("cone double external<3> external<3> 3", [] { cone_n<vector<double, external<3>>, vector<double, external<3>>, double>(3); });
mc::add("cone double external<> compiled<2> 2", [] { cone_n<vector<double, external<>>, vector<double, compiled<2>>, double>(2); });
mc::add("cone double compiled<3> dynamic<> 3", [] { cone_n<vector<double, compiled<3>>, vector<double, dynamic<>>, double>(3); });
mc::add("cone mixed axis double 2", [] { cone_n<vector<double, compiled<2>>, vector<float, compiled<2>>, double>(2); });
mc::add("cone mixed angle double 2", [] { cone_n<vector<double, compiled<2>>, vector<double, compiled<2>>, float>(2); });
mc::add("cone mixed axis double 3", [] { cone_n<vector<double, compiled<3>>, vector<float, compiled<3>>, double>(3); });
mc::add("cone mixed angle double 3", [] { cone_n<vector<double, compiled<3>>, vector<double, compiled<3>>, float>(3); });
mc::add("cone float compiled<1> compiled<1> 1", [] { cone_n<vector<float, compiled<1>>, vector<float, compiled<1>>, float>(1); });
mc::add("cone float compiled<2> compiled<2> 2", [] { cone_n<vector<float, compiled<2>>, vector<float, compiled<2>>, float>(2); });
mc::add("cone float compiled<3> compiled<3> 3", [] { cone_n<vector<float, compiled<3>>, vector<float, compiled<3>>, float>(3); });
mc::add("cone float compiled<4> compiled<4> 4", [] { cone_n<vector<float, compiled<4>>, vector<float, compiled<4>>, float>(4); });
mc::add("cone float dynamic<> dynamic<> 2", [] { cone_n<vector<float, dynamic<>>, vector<float, dynamic<>>, float>(2); });
mc::add("cone float dynamic<> dynamic<> 3", [] { cone_n<vector<float, dynamic<>>, vector<float, dynamic<>>, float>(3); });
mc::add("cone float external<3> external<3> 3", [] { cone_n<vector<float, external<3>>, vector<float, external<3>>, float>(3); });
mc::add("cone float external<> compiled<2> 2", [] { cone_n<vector<float, external<>>, vector<float, compiled<2>>, float>(2); });
mc::add("cone float compiled<3> dynamic<> 3", [] { cone_n<vector<float, compiled<3>>, vector<float, dynamic<>>, float>(3); });
mc::add("cone mixed axis float 2", [] { cone_n<vector<float, compiled<2>>, vector<double, compiled<2>>, float>(2); });
mc::add("cone mixed angle float 2", [] { cone_n<vector<float, compiled<2>>, vector<float, compiled<2>>, double>(2); });
mc::add("cone mixed axis float 3", [] { cone_n<vector<float, compiled<3>>, vector<double, compiled<3>>, float>(3); });
mc::add("cone mixed angle float 3", [] { cone_n<vector<float, compiled<3>>, vector<float, compiled<3>>, double>(3); });
} } r; } }
