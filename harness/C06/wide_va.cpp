#include "forms.h"
namespace { struct R { R() { using namespace c06; mc::add("large vector double from float N=5", [] { vec_all<double, float, 5>(); }); mc::add("large vector double from float N=8", [] { vec_all<double, float, 8>(); }); mc::add("large vector double from float N=17", [] { vec_all<double, float, 17>(); }); } } r; }
