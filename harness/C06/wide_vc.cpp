#include "forms.h"
namespace { struct R { R() { using namespace c06; mc::add("large vector int from int N=7", [] { vec_all<int, int, 7>(); }); mc::add("large vector float from double N=12", [] { vec_all<float, double, 12>(); }); mc::add("large vector double from int N=33", [] { vec_all<double, int, 33>(); }); } } r; }
