#include "forms.h"
namespace { struct R { R() { using namespace c06; mc::add("large vector double from double N=6", [] { vec_all<double, double, 6>(); }); mc::add("large vector double from double N=9", [] { vec_all<double, double, 9>(); }); mc::add("large vector double from double N=16", [] { vec_all<double, double, 16>(); }); } } r; }
