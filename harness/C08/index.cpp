#include "domain.h"
namespace { using namespace c08;
template<class E, class B, class L> void each(const std::string& s)
{
  auto one = [&](auto* p, const std::string& k) { using M = std::decay_t<decltype(*p)>;
    mc::add("basis index " + k + " " + s, basis_index<M>);
    mc::add("numbers " + k + " " + s, numbers<M>);
    if constexpr(std::is_floating_point<E>::value) mc::add("axis of rotation " + k + " " + s, axis_rotation<M>);
  };
  one((matrix<E, fixed<3, 3>, B, L>*) 0, "fixed 3x3"); one((matrix<E, fixed<4, 4>, B, L>*) 0, "fixed 4x4");
  one((matrix<E, dynamic<>, B, L>*) 0, "dynamic"); one((matrix<E, external<4, 4>, B, L>*) 0, "external 4x4"); one((matrix<E, external<>, B, L>*) 0, "external dynamic");
}
struct R { R() {
  each<double, row_basis, row_major>("double row row"); each<double, col_basis, col_major>("double col col"); each<double, col_basis, row_major>("double col row"); each<double, row_basis, col_major>("double row col");
  each<float, col_basis, col_major>("float col col"); each<int, row_basis, row_major>("int row row"); each<int, col_basis, row_major>("int col row");
} } r; }
