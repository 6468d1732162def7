#include "mats.h"
namespace { using namespace g13; struct R { R() {
  squares<matrix<float, fixed<2, 2>, row_basis, row_major>, vector<float, fixed<2>>>("fixed float 2x2", 2);
  squares<matrix<float, fixed<3, 3>, row_basis, row_major>, vector<float, fixed<3>>>("fixed float 3x3", 3);
  squares<matrix<float, fixed<4, 4>, row_basis, row_major>, vector<float, fixed<4>>>("fixed float 4x4", 4);
  squares<matrix<float, fixed<5, 5>, row_basis, row_major>, vector<float, fixed<5>>>("fixed float 5x5", 5);
  rows<matrix<float, fixed<2, 2>, row_basis, row_major>>("fixed float 2x2", 2); rows<matrix<float, fixed<3, 3>, row_basis, row_major>>("fixed float 3x3", 3);
  projections<matrix<float, fixed<4, 4>, row_basis, row_major>>("fixed float");
} } r; }
