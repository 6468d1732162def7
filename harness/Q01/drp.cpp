#include "alg.h"
namespace { struct R { R() { using namespace q01; using namespace cml;
mc::add("single quaternion<double, fixed<>, real_first, positive_cross>", single<quaternion<double, fixed<>, real_first, positive_cross>>);
mc::add("scaled quaternion<double, fixed<>, real_first, positive_cross>", scaled<quaternion<double, fixed<>, real_first, positive_cross>>);
mc::add("pairs quaternion<double, fixed<>, real_first, positive_cross>", pairs<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<double, fixed<>, real_first, positive_cross>>);
mc::add("triples quaternion<double, fixed<>, real_first, positive_cross>", triples<quaternion<double, fixed<>, real_first, positive_cross>>);
mc::add("conjugation quaternion<double, fixed<>, real_first, positive_cross>", conjugation<quaternion<double, fixed<>, real_first, positive_cross>>);
mc::add("pairs quaternion<double, fixed<>, real_first, positive_cross> quaternion<float, fixed<>, real_first, positive_cross>", pairs<quaternion<double, fixed<>, real_first, positive_cross>, quaternion<float, fixed<>, real_first, positive_cross>>);
} } r; }
