#include "alg.h"
namespace { struct R { R() { using namespace q01; using namespace cml;
mc::add("single quaternion<float, fixed<>, imaginary_first, positive_cross>", single<quaternion<float, fixed<>, imaginary_first, positive_cross>>);
mc::add("scaled quaternion<float, fixed<>, imaginary_first, positive_cross>", scaled<quaternion<float, fixed<>, imaginary_first, positive_cross>>);
mc::add("pairs quaternion<float, fixed<>, imaginary_first, positive_cross>", pairs<quaternion<float, fixed<>, imaginary_first, positive_cross>, quaternion<float, fixed<>, imaginary_first, positive_cross>>);
mc::add("triples quaternion<float, fixed<>, imaginary_first, positive_cross>", triples<quaternion<float, fixed<>, imaginary_first, positive_cross>>);
mc::add("conjugation quaternion<float, fixed<>, imaginary_first, positive_cross>", conjugation<quaternion<float, fixed<>, imaginary_first, positive_cross>>);
mc::add("pairs quaternion<float, fixed<>, imaginary_first, positive_cross> quaternion<double, fixed<>, imaginary_first, positive_cross>", pairs<quaternion<float, fixed<>, imaginary_first, positive_cross>, quaternion<double, fixed<>, imaginary_first, positive_cross>>);
mc::add("conventions float", conventions<float>);
} } r; }
