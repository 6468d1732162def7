#include "mats.h"
namespace { using namespace g13; struct R { R() {
  squares<matrix<double, fixed<2, 2>>, vector<double, fixed<2>>>("fixed double 2x2", 2);
  squares<matrix<double, fixed<3, 3>>, vector<double, fixed<3>>>("fixed double 3x3", 3);
  squares<matrix<double, fixed<4, 4>>, vector<double, fixed<4>>>("fixed double 4x4", 4);
  squares<matrix<double, fixed<5, 5>>, vector<double, fixed<5>>>("fixed double 5x5", 5);
  rows<matrix<double, fixed<2, 2>>>("fixed double 2x2", 2); rows<matrix<double, fixed<3, 3>>>("fixed double 3x3", 3);
  projections<matrix<double, fixed<4, 4>>>("fixed double");
} } r; }
