#include "alg.h"
namespace { struct R { R() { using namespace q01; using namespace cml;
mc::add("single quaternion<double, fixed<>, real_first, negative_cross>", single<quaternion<double, fixed<>, real_first, negative_cross>>);
mc::add("scaled quaternion<double, fixed<>, real_first, negative_cross>", scaled<quaternion<double, fixed<>, real_first, negative_cross>>);
mc::add("pairs quaternion<double, fixed<>, real_first, negative_cross>", pairs<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>>);
mc::add("triples quaternion<double, fixed<>, real_first, negative_cross>", triples<quaternion<double, fixed<>, real_first, negative_cross>>);
mc::add("conjugation quaternion<double, fixed<>, real_first, negative_cross>", conjugation<quaternion<double, fixed<>, real_first, negative_cross>>);
mc::add("pairs quaternion<double, fixed<>, real_first, negative_cross> quaternion<float, fixed<>, real_first, negative_cross>", pairs<quaternion<double, fixed<>, real_first, negative_cross>, quaternion<float, fixed<>, real_first, negative_cross>>);
} } r; }
