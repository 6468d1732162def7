#ifdef MC_THOROUGH
#include "forms.h"
namespace { struct R { R() {
  c06::add_vec<long double, float>(); c06::add_vec<short, long>(); c06::add_vec<double, unsigned char>();
  using namespace cml;
  mc::add("vector double from double N=5", [] { c06::vec_all<double, double, 5>(); });
  mc::add("vector float from double N=8", [] { c06::vec_all<float, double, 8>(); });
  c06::add_mat<long double, float, 3, 5>("matrix long double,float,3,5"); c06::add_mat2<short, double, 5, 2>("matrix short,double,5,2");
  c06::add_mat<float, int, 1, 4>("matrix float,int,1,4"); c06::add_mat2<double, long, 4, 1>("matrix double,long,4,1");
} } r; }
#endif
