#include "domain.h"
namespace { using namespace c08;
struct R { R() {
  mc::add("vector size double", vector_count<double>); mc::add("vector size int", vector_count<int>);
  mc::add("matrix size double row row", matrix_shape<double, row_basis, row_major>); mc::add("matrix size double col col", matrix_shape<double, col_basis, col_major>);
  mc::add("matrix size int col row", matrix_shape<int, col_basis, row_major>); mc::add("matrix size float row col", matrix_shape<float, row_basis, col_major>);
} } r; }
