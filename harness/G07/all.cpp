#include "coord.h"
namespace g07 { namespace {
template<class E, class F> void both(const std::string& n)
{
  mc::add("polar out and back " + n, polar_round<E, F>);
  mc::add("cylindrical out and back " + n, cylinder_round<E, F>);
  mc::add("spherical out and back " + n, sphere_round<E, F>);
  mc::add("definitions " + n, definitions<E, F>);
}
struct R { R() {
  both<double, double>("double"); both<float, float>("float"); both<double, float>("double to float"); both<float, double>("float to double");
  mc::add("kinds double", kinds<double>); mc::add("kinds float", kinds<float>);
  mc::add("rejected double", rejected<double>); mc::add("rejected float", rejected<float>);
} } r; } }
