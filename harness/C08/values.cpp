#include "domain.h"
namespace { using namespace c08;
template<class E> void each(const std::string& s)
{
  mc::add("quaternion imaginary first positive " + s, quaternion_axis<quaternion<E, fixed<>, imaginary_first, positive_cross>>);
  mc::add("quaternion imaginary first negative " + s, quaternion_axis<quaternion<E, fixed<>, imaginary_first, negative_cross>>);
  mc::add("quaternion real first positive " + s, quaternion_axis<quaternion<E, fixed<>, real_first, positive_cross>>);
  mc::add("quaternion real first negative " + s, quaternion_axis<quaternion<E, fixed<>, real_first, negative_cross>>);
  mc::add("coordinates fixed " + s, coordinates<vector<E, fixed<3>>>); mc::add("coordinates dynamic " + s, coordinates<vector<E, dynamic<>>>);
  mc::add("coordinates external " + s, coordinates<vector<E, external<3>>>); mc::add("coordinates external dynamic " + s, coordinates<vector<E, external<>>>);
  mc::add("cone fixed 2 " + s, cone<vector<E, fixed<2>>, vector<E, fixed<2>>, E>); mc::add("cone fixed 3 " + s, cone<vector<E, fixed<3>>, vector<E, fixed<3>>, double>);
  mc::add("cone fixed 4 " + s, cone<vector<E, fixed<4>>, vector<E, fixed<4>>, float>); mc::add("cone dynamic " + s, cone<vector<E, dynamic<>>, vector<E, dynamic<>>, E>);
  mc::add("cone dynamic from fixed " + s, cone<vector<E, dynamic<>>, vector<E, fixed<3>>, E>);
  for(int n = 1; n <= 3; ++n) {
    mc::add("singular dynamic " + std::to_string(n) + " " + s, [n] { singular<matrix<E, dynamic<>, row_basis, row_major>, vector<E, dynamic<>>>(n); });
    mc::add("singular dynamic col " + std::to_string(n) + " " + s, [n] { singular<matrix<E, dynamic<>, col_basis, col_major>, vector<E, dynamic<>>>(n); });
  }
  mc::add("singular fixed 2 " + s, [] { singular<matrix<E, fixed<2, 2>>, vector<E, fixed<2>>>(2); });
  mc::add("singular fixed 3 " + s, [] { singular<matrix<E, fixed<3, 3>, row_basis, col_major>, vector<E, fixed<3>>>(3); });
#ifdef MC_THOROUGH
  mc::add("singular fixed 4 " + s, [] { singular<matrix<E, fixed<4, 4>>, vector<E, fixed<4>>>(4); });
#endif
}
struct R { R() { each<double>("double"); each<float>("float"); } } r; }
