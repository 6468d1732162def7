#include "inputs.h"
namespace {
using namespace cml;
using sx::own; using sx::put;
struct SA
{
  using K = sx::Fix;
  SA()
  {
    OP("s_deg_rad", o(deg(x.x)); o(rad(x.y)));
    OP("s_sqr", o(sqr(x.x)); o(cub(x.x)); o(sqrt_safe(x.x)); o(in_range(x.x, 0., 1.)); o(inv_sqrt(x.z)));
    OP("s_clamp", o(clamp(x.x, -.1, .1)); o(clamp(x.y, -1., 1.)));
    OP("s_wrap", o(wrap(x.z * 10, -1., 2.)); o(wrap(17, -2, 4)));
    OP("s_sign", o(sign(x.y)););
    OP("s_lengths", o(length(x.x, x.y)); o(length(x.x, x.y, x.z)); o(length_squared(x.x, x.y)); o(length_squared(x.x, x.y, x.z)));
    OP("s_cyclic", int i; int j; int k; int l; cyclic_permutation(1, i, j); o(i); o(j); cyclic_permutation(2, i, j, k); o(i); o(j); o(k); cyclic_permutation(3, i, j, k, l); o(l); o(next(2, 3)); o(prev(0, 3)));
    OP("s_map_range", o(map_range(x.x, -1., 1., 5., 9.)));
    OP("s_index", o(index_of_max(x.x, x.y)); o(index_of_max(x.x, x.y, x.z, x.g)); o(index_of_min_abs(x.x, x.y, x.z, x.g)); o(index_of_max(x.x, x.y, x.z)); o(index_of_max_abs(x.x, x.y, x.z)); o(index_of_min(x.x, x.y, x.z)); o(index_of_min_abs(x.x, x.y, x.z)));
    OP("s_trig_safe", o(acos_safe(x.z)); o(asin_safe(x.z)); o(acos_safe(x.x)));
    OP("s_constants", o(constants<double>::pi()); o(constants<double>::sqrt_6()); o(scalar_traits<double>::epsilon()); o(scalar_traits<double>::sqrt_epsilon()));
    OPR("s_random", o(random_integer(1, 5) > 0); o(random_real(0., 1.) >= 0); o(cml::random_unit() < 2); o(random_binary() < 2); o(random_polar() < 2));
  }
} sa;
} // namespace
