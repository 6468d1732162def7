#include "inplace.h"
namespace { using namespace e08; struct R { R() {
  using M4 = matrix<double, fixed<4, 4>>; using M3 = matrix<double, fixed<3, 3>>; using M2 = matrix<double, fixed<2, 2>>;
  mc::add("vectors fixed double 3", [] { vectors<vector<double, fixed<3>>, void, M3>(3); });
  mc::add("vectors fixed float 3", [] { vectors<vector<float, fixed<3>>, void, matrix<float, fixed<3, 3>, row_basis, row_major>>(3); });
  mc::add("vectors external double 3", [] { vectors<vector<double, external<3>>, void, M3>(3); });
  mc::add("vectors dynamic double 3", [] { vectors<vector<double, dynamic<>>, void, matrix<double, dynamic<>>>(3); });
  mc::add("vectors fixed double 2", [] { vectors<vector<double, fixed<2>>, void, M2>(2); });
  mc::add("vectors external double 2", [] { vectors<vector<double, external<2>>, void, M2>(2); });
  mc::add("vectors dynamic double 2", [] { vectors<vector<double, dynamic<>>, void, matrix<double, dynamic<>>>(2); });
  mc::add("vectors fixed double 4", [] { vectors<vector<double, fixed<4>>, void, M4>(4); });
  mc::add("vectors dynamic float 4", [] { vectors<vector<float, dynamic<>>, void, matrix<float, dynamic<>>>(4); });
  mc::add("plane fixed", plane<vector<double, fixed<2>>>);
  mc::add("plane dynamic", plane<vector<double, dynamic<>>>);
  mc::add("plane external", plane<vector<float, external<2>>>);
  mc::add("coordinates fixed 2", [] { coordinates<vector<double, fixed<2>>>(2); });
  mc::add("coordinates dynamic 2", [] { coordinates<vector<float, dynamic<>>>(2); });
  mc::add("coordinates fixed 3", [] { coordinates<vector<double, fixed<3>>>(3); });
  mc::add("coordinates external 3", [] { coordinates<vector<float, external<3>>>(3); });
  mc::add("coordinates dynamic 3", [] { coordinates<vector<double, dynamic<>>>(3); });
} } r; }
