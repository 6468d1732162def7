#include "alg.h"
namespace { struct R { R() { using namespace q01; using namespace cml;
mc::add("single quaternion<float, fixed<>, real_first, negative_cross>", single<quaternion<float, fixed<>, real_first, negative_cross>>);
mc::add("scaled quaternion<float, fixed<>, real_first, negative_cross>", scaled<quaternion<float, fixed<>, real_first, negative_cross>>);
mc::add("pairs quaternion<float, fixed<>, real_first, negative_cross>", pairs<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<float, fixed<>, real_first, negative_cross>>);
mc::add("triples quaternion<float, fixed<>, real_first, negative_cross>", triples<quaternion<float, fixed<>, real_first, negative_cross>>);
mc::add("conjugation quaternion<float, fixed<>, real_first, negative_cross>", conjugation<quaternion<float, fixed<>, real_first, negative_cross>>);
mc::add("pairs quaternion<float, fixed<>, real_first, negative_cross> quaternion<double, fixed<>, real_first, negative_cross>", pairs<quaternion<float, fixed<>, real_first, negative_cross>, quaternion<double, fixed<>, real_first, negative_cross>>);
} } r; }
