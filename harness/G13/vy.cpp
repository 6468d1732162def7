#include "vecs.h"
namespace { using namespace g13; struct R { R() {
  vectors<vector<double, dynamic<>>>("dynamic double 2", 2);
  vectors<vector<float, dynamic<>>>("dynamic float 3", 3);
  vectors<vector<double, dynamic<>>>("dynamic double 5", 5);
  planar<vector<double, dynamic<>>, matrix<double, dynamic<>>, matrix<double, dynamic<>>>("dynamic double 2");
  spatial<vector<double, dynamic<>>, matrix<double, dynamic<>>, matrix<double, dynamic<>>, quaternion<double, fixed<>, real_first, negative_cross>>("dynamic double 3");
} } r; }
