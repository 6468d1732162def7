#include "../special.h"
namespace { using namespace special; template<class T, class O, class C> using Q = cml::quaternion<T, cml::fixed<>, O, C>; using cml::real_first; using cml::imaginary_first; using cml::positive_cross; using cml::negative_cross; struct R { R() {
mc::add("special double real first", quaternions<Q<double, real_first, positive_cross>>); mc::add("special double imaginary first", quaternions<Q<double, imaginary_first, negative_cross>>); mc::add("special float imaginary first", quaternions<Q<float, imaginary_first, positive_cross>>); mc::add("special long double real first", quaternions<Q<long double, real_first, negative_cross>>);
mc::add("special product double rp", product<Q<double, real_first, positive_cross>>); mc::add("special product double rn", product<Q<double, real_first, negative_cross>>); mc::add("special product double ip", product<Q<double, imaginary_first, positive_cross>>); mc::add("special product float in", product<Q<float, imaginary_first, negative_cross>>);
} } r; }
