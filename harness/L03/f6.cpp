#include "lu.h"
namespace { struct R { R() { using namespace l03;
mc::add("solve 6x6 matrix<double, fixed<6, 6>, col_basis, row_major> vector<double, fixed<6>>", solve<matrix<double, fixed<6, 6>, col_basis, row_major>, vector<double, fixed<6>>, 6, false>);
} } r; }
