#include "../quat.h"
namespace q02 {
using namespace rq;
constexpr double pi = 3.14159265358979323846;

inline Q rexp(const Q& q)
{
  const double v = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), e = std::exp(q.w), s = v > 0 ? std::sin(v) / v : 1;
  return {e * std::cos(v), e * s * q.x, e * s * q.y, e * s * q.z};
}
inline double vlen(const Q& q) { return std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z); }
// Principal logarithm (imaginary part of length at most pi); v == 0 and w < 0 has no unique axis.
inline Q rlog(const Q& q)
{
  const double v = vlen(q), s = v > 0 ? std::atan2(v, q.w) / v : 0;
  return {std::log(std::sqrt(norm(q))), s * q.x, s * q.y, s * q.z};
}
inline bool finite(const Q& q) { for(int i = 0; i < 4; ++i) if(!(std::fabs(q[i]) < 1e300)) return false; return true; }
// Values rounded to the element type.
template<class T> Q fit(const Q& q) { Q o; for(int i = 0; i < 4; ++i) o[i] = double(cml::value_type_trait_of_t<T>(q[i])); return o; }

// The imaginary part is right relative to its own size (not only to that of the whole quaternion): a small rotation
// keeps its angle and axis.  Lengths whose square underflows are left out.
template<class T> bool imaginary(const Q& got, const Q& want, double t)
{
  const double n = vlen(want);
  if(!(n > (sizeof(cml::value_type_trait_of_t<T>) == 4 ? 1e-15 : 1e-150))) return true;
  return vlen(Q{0, got.x - want.x, got.y - want.y, got.z - want.z}) <= t * n;
}

inline double grid(int i) { static const double V[] = {0, 1, -1, .3, -.7, 2.5, 1e-9, -1e-9, 1e-30, -2.25, 1e-3}; return V[i]; }

template<class T> void both_ways()
{
  const int k = mc::thorough() ? 11 : 8;
  Q raw;
  for(int i = 0; i < 4; ++i) raw[i] = grid(mc::choose(k));
  const Q q = fit<T>(raw);
  const double t = sizeof(cml::value_type_trait_of_t<T>) == 4 ? 1e-5 : 1e-13;
  T a = make<T>(q);
  const T& c = a;
  // Exponential.
  const Q e = read(cml::exp(c)), we = rexp(q);
  MC_CHECK(finite(e), "exp finite", "exp" << q << " = " << e);
  MC_CHECK(near(e, we, t), "exp", "exp" << q << " = " << e << " instead of " << we);
  if(vlen(q) < 3.1) MC_CHECK(imaginary<T>(e, we, t), "exp: imaginary part", "exp" << q << " = " << e << " instead of " << we);
  MC_CHECK(ref::near(std::sqrt(norm(e)), std::exp(q.w), t), "length of exp", "exp" << q << " = " << e << " has length " << std::sqrt(norm(e)));
  MC_CHECK(same(read(a), q), "argument changed", q << " became " << read(a));
  T b = a; T& rb = b.exp();
  MC_CHECK(&rb == &b && same(read(b), e), "exp in place", "exp" << q << " = " << read(b) << " instead of " << e);
  MC_CHECK(same(read(T(a).exp()), e), "exp of a temporary", "exp" << q << " = " << read(T(a).exp()));
  MC_CHECK(near(read(cml::exp(cml::conjugate(c))), conj(we), t), "exp of the conjugate", q);
  MC_CHECK(near(read(cml::exp(c) * cml::exp(-c)), Q{1, 0, 0, 0}, 40 * t), "exp(q) exp(-q)", q << " " << read(cml::exp(c) * cml::exp(-c)));
  MC_CHECK(near(read(cml::exp(c * 2.)), read(cml::exp(c) * cml::exp(c)), 40 * t), "exp(2q)", q);
  if(vlen(q) < 3.1) {
    const Q l = read(cml::log(cml::exp(c)));
    MC_CHECK(finite(l) && near(l, q, 30 * t) && imaginary<T>(l, q, 30 * t), "log of exp", "log(exp" << q << ") = " << l);
    mc::step(1);
  }
  mc::step(7);
  mc::state(mc::Hash()(we.w)(we.x)(we.y)(we.z));
  if(norm(q) < 1e-25) return;
  // Logarithm.
  const Q l = read(cml::log(c)), wl = rlog(q);
  MC_CHECK(finite(l), "log finite", "log" << q << " = " << l);
  // (For a negative real, or an imaginary part whose squared length underflows, any axis will do.)
  const bool cut = q.w < 0 && vlen(q) < (sizeof(cml::value_type_trait_of_t<T>) == 4 ? 1e-22 : 1e-161);
  if(cut) MC_CHECK(ref::near(l.w, wl.w, t) && ref::near(vlen(l), pi, t), "log", "log" << q << " = " << l);
  else MC_CHECK(near(l, wl, t), "log", "log" << q << " = " << l << " instead of " << wl);
  if(!cut) MC_CHECK(imaginary<T>(l, wl, 4 * t), "log: imaginary part", "log" << q << " = " << l << " instead of " << wl);
  MC_CHECK(near(read(cml::exp(cml::log(c))), q, 10 * t), "exp of log", "exp(log" << q << ") = " << read(cml::exp(cml::log(c))));
  MC_CHECK(same(read(a), q), "argument changed", q << " became " << read(a));
  T d = a; T& rd = d.log();
  MC_CHECK(&rd == &d && same(read(d), l), "log in place", "log" << q << " = " << read(d) << " instead of " << l);
  MC_CHECK(same(read(T(a).log()), l), "log of a temporary", "log" << q << " = " << read(T(a).log()));
  MC_CHECK(same(read(cml::log(-(-c))), l), "log of an expression", q);
  if(!cut) {
    MC_CHECK(near(read(cml::log(cml::conjugate(c))), conj(wl), t), "log of the conjugate", q);
    MC_CHECK(near(read(cml::log(cml::inverse(c))), -1. * wl, 10 * t), "log of the inverse", q << " " << read(cml::log(cml::inverse(c))));
    MC_CHECK(near(read(cml::log(cml::normalize(c))), wl - Q{wl.w, 0, 0, 0}, 10 * t), "log of the direction", q);
  }
  mc::step(7);
}
// One-parameter subgroups: exp(s u) exp(r u) = exp((s + r) u).
template<class T> void subgroups()
{
  Q u;
  for(int i = 0; i < 4; ++i) u[i] = mc::choose(3) - 1;
  const double s = (mc::choose(7) - 3) * .4, r = (mc::choose(7) - 3) * .7, t = sizeof(cml::value_type_trait_of_t<T>) == 4 ? 1e-5 : 1e-13;
  const T a = make<T>(u);
  const Q got = read(cml::exp(a * s) * cml::exp(r * a)), want = rexp((s + r) * u);
  MC_CHECK(near(got, want, t), "subgroup", u << " " << s << " " << r << ": " << got << " instead of " << want);
  mc::step(2);
  mc::state(mc::Hash()(want.w)(want.x)(want.y)(want.z));
}
} // namespace q02
