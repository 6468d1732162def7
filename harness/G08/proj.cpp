#include "angle.h"
namespace g08 { namespace {
template<class E> void some(const std::string& n)
{
  using O = std::conditional_t<sizeof(E) == 4, double, float>;
  mc::add("projections 1 " + n, projections_fixed<E, 1>); mc::add("projections 2 " + n, projections_fixed<E, 2>);
  mc::add("projections 3 " + n, projections_fixed<E, 3>); mc::add("projections 5 " + n, projections_fixed<E, 5>);
  mc::add("projections dynamic 3 " + n, projections_dynamic<E, 3>); mc::add("projections dynamic 4 " + n, projections_dynamic<E, 4>);
  mc::add("projections mixed 3 " + n, projections_mixed<E, O, 3>);
  mc::add("sizes " + n, sizes<E>);
}
struct R { R() { some<double>("double"); some<float>("float"); mc::add("whole numbers int", whole<int>); mc::add("whole numbers long", whole<long>); mc::add("whole numbers double", whole<double>); } } r; } }
