#include "vecs.h"
namespace { using namespace g13; struct R { R() {
  vectors<vector<float, fixed<2>>>("fixed float 2", 2);
  vectors<vector<float, fixed<3>>>("fixed float 3", 3);
  vectors<vector<float, fixed<4>>>("fixed float 4", 4);
  planar<vector<float, fixed<2>>, matrix<float, fixed<2, 2>, row_basis, row_major>, matrix<float, fixed<3, 3>, row_basis, row_major>>("fixed float 2");
  spatial<vector<float, fixed<3>>, matrix<float, fixed<3, 3>, row_basis, row_major>, matrix<float, fixed<4, 4>, row_basis, row_major>, quaternion<float>>("fixed float 3");
} } r; }
