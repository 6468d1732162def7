#include "vecs.h"
namespace { using namespace g13; struct R { R() {
  vectors<vector<double, fixed<2>>>("fixed double 2", 2);
  vectors<vector<double, fixed<3>>>("fixed double 3", 3);
  vectors<vector<double, fixed<4>>>("fixed double 4", 4);
  planar<vector<double, fixed<2>>, matrix<double, fixed<2, 2>>, matrix<double, fixed<3, 3>>>("fixed double 2");
  spatial<vector<double, fixed<3>>, matrix<double, fixed<3, 3>>, matrix<double, fixed<4, 4>>, quaternion<double>>("fixed double 3");
} } r; }
