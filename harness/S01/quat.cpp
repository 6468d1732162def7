#include "inputs.h"
namespace {
using namespace cml;
using sx::own; using sx::put; using sx::text;
struct SQ
{
  using K = sx::Fix;
  SQ()
  {
    OP("q_copy", auto q = own(x.q); put(o, q); q = x.p; put(o, q); quaternion<double, compiled<>, real_first, negative_cross> r; r = x.s; put(o, r));
    OP("q_set", auto q = own(x.q); q = sx::Q(1., 2., 3., x.x); put(o, q); q.put(2, 9.); put(o, q); q = {4., 3., 2., 1.}; put(o, q));
    OP("q_ctor", sx::Q q(x.a3, 2.); put(o, q); sx::QR r(2., x.a3); put(o, r); double b[4] = {1, 2, 3, 4}; sx::Q p(&b[0]); put(o, p));
    OP("q_add", put(o, x.q + x.p); put(o, x.q - x.p));
    OP("q_neg", put(o, -x.q); put(o, +x.q));
    OP("q_scale", put(o, x.q * 2.); put(o, 2. * x.q); put(o, x.q / 2.));
    OP("q_mul", put(o, x.q * x.p); put(o, x.s * x.t));
    OP("q_mul_chain", put(o, x.q * x.p * x.q));
    OP("q_assign_ops", auto q = own(x.q); q += x.p; put(o, q); q -= x.p; q *= 2.; q /= 3.; put(o, q); q *= x.p; put(o, q));
    OP("q_dot", o(dot(x.q, x.p)); o(length(x.q)); o(length_squared(x.q)); o(norm(x.q)); o(x.s.length()));
    OP("q_normalize", put(o, normalize(x.q)); auto q = own(x.q); q.normalize(); put(o, q));
    OP("q_conjugate", put(o, conjugate(x.q)); auto q = own(x.s); q.conjugate(); put(o, q));
    OP("q_inverse", put(o, inverse(x.q)); auto q = own(x.s); q.inverse(); put(o, q));
    OP("q_imaginary", put(o, imaginary(x.q)); o(real(x.q)); o(x.q.w()); o(x.q.x()); o(x.q.y()); o(x.q.z()));
    OP("q_explog", put(o, log(x.q)); put(o, exp(x.p)); auto q = own(x.s); q.log(); put(o, q); q.exp(); put(o, q));
    OP("q_identity", auto q = own(x.q); q.identity(); put(o, q); q.zero(); put(o, q); put(o, identity(x.q)));
    OP("q_compare", o(x.q == x.p); o(x.q != x.p); o(x.q < x.p); o(x.q <= x.p); o(x.q > x.p); o(x.q >= x.p); o(x.q == x.q));
    OP("q_print", put(o, text(x.q)); put(o, text(x.s)));
  }
} sq;
} // namespace
