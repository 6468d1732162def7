#include "mats.h"
namespace { using namespace g13; struct R { R() {
  for(int n = 2; n <= 5; ++n) squares<matrix<double, dynamic<>>, vector<double, dynamic<>>>("dynamic double " + std::to_string(n), n);
  squares<matrix<float, dynamic<>, col_basis, row_major>, vector<float, dynamic<>>>("dynamic float 4", 4);
  rows<matrix<double, dynamic<>>>("dynamic double 2", 2); rows<matrix<double, dynamic<>>>("dynamic double 3", 3);
  projections<matrix<double, dynamic<>>>("dynamic double");
} } r; }
