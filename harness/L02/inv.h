#include "../linalg.h"
namespace l02 {
using namespace lin;

template<class T> double scale_of(const T& a) { double s = 1; for(double v : a.d) s = std::fmax(s, std::fabs(v)); return s; }

// Dense fixed- or dynamic-size matrix of the same element, basis, for products.
template<class M, int N, bool deep> void inverses()
{
  using E = value_type_trait_of_t<M>;
  const mat a = any(N, deep);
  const double d = xdet(a), t = tol<E>();
  mc::state(mc::Hash()(d));
  if(d == 0) return;
  const mat want = xinv(a, d);
  Obj<M> o(N);
  M& m = o.m;
  put(m, a);
  const M& cm = m;
  const mat before = ref::readm(m);
  const double w = t * std::fmax(1., scale_of(want));
  auto f = inverse(cm);
  MC_CHECK(ref::near(ref::readm(f), want, w), "function", a << " inverse " << ref::readm(f) << " instead of " << want);
  MC_CHECK(ref::same(ref::readm(m), before), "argument changed", a << " became " << ref::readm(m));
  MC_CHECK(ref::near(ref::mul(ref::readm(f), a), mat::identity(N), 20 * w) && ref::near(ref::mul(a, ref::readm(f)), mat::identity(N), 20 * w), "product", a << " inverse " << ref::readm(f));
  const mat fx = ref::readm(inverse(f));
  MC_CHECK(ref::near(fx, a, 50 * w * scale_of(a)), "inverse of inverse", a << " came back as " << fx);
  MC_CHECK(ref::near(ref::readm(inverse(transpose(m))), transposed(want), w), "of an expression", a << " transposed inverse " << ref::readm(inverse(transpose(m))));
  MC_CHECK(ref::near(ref::readm(inverse(m * E(2))), ref::scale(want, .5), w), "of an expression", a << " doubled inverse " << ref::readm(inverse(m * E(2))));
  // A temporary, then the object itself.
  {
    Obj<temporary_of_t<M>> q(N);
    put(q.m, a);
    auto tm = temporary_of_t<M>(q.m).inverse();
    MC_CHECK(ref::near(ref::readm(tm), want, w), "temporary", a << " inverse " << ref::readm(tm));
    MC_CHECK(ref::same(ref::readm(q.m), before), "argument changed", a << " became " << ref::readm(q.m));
  }
  auto& r = m.inverse();
  MC_CHECK(&r == &m, "returns the object", "");
  MC_CHECK(ref::same(ref::readm(m), ref::readm(f)) || ref::near(ref::readm(m), ref::readm(f), t), "in place", a << " inverse in place " << ref::readm(m) << " functional " << ref::readm(f));
  MC_CHECK(ref::near(ref::readm(m), want, w), "in place", a << " inverse in place " << ref::readm(m));
  mc::step(8);
}
// (AB)^-1 = B^-1 A^-1 and det(A^-1) = 1/det(A).
template<class M, int N> void products()
{
  using E = value_type_trait_of_t<M>;
  mat b = mat::identity(N);
  for(int i = 0; i < N; ++i) { b(i, (i + 1) % N) += 1; if(i + 1 < N) b(i + 1, 0) -= 1; }
  b(0, 0) = 3;
  const mat a = N == 2 ? all(2, -2, 2) : N == 3 ? all(3, -1, 1) : circulant(N);
  const double d = xdet(a), bd = xdet(b);
  mc::state(mc::Hash()(d));
  if(d == 0 || bd == 0) return;
  Obj<M> x(N), y(N);
  put(x.m, a);
  put(y.m, b);
  auto ix = inverse(x.m);
  auto iy = inverse(y.m);
  const mat p = ref::readm(inverse(x.m * y.m)), q = ref::readm(iy * ix);
  const double w = tol<E>() * std::fmax(1., scale_of(q));
  MC_CHECK(ref::near(p, q, w), "of a product", a << " and " << b << ": " << p << " and " << q);
  MC_CHECK(ref::near(double(determinant(ix)), 1 / d, w), "determinant", a << " inverse has determinant " << determinant(ix));
  mc::step(3);
}
// Scaling by powers of two.
template<class M, int N> void scaled()
{
  const int e = mc::choose(5) * 4 - 8;
  const double f = std::ldexp(1., e);
  mat a = N <= 2 ? all(N, -1, 1) : N == 3 ? all(3, -1, 1) : signed_perm(N);
  const double d = xdet(a);
  if(d == 0) return;
  const mat want = ref::scale(xinv(a, d), 1 / f);
  a = ref::scale(a, f);
  Obj<M> o(N);
  put(o.m, a);
  const mat got = ref::readm(inverse(o.m));
  bool ok = true;
  for(size_t i = 0; i < got.d.size(); ++i) if(!(std::fabs(got.d[i] - want.d[i]) <= 1e-4 / f)) ok = false;
  MC_CHECK(ok, "scale", a << " inverse " << got << " instead of " << want);
  mc::step(1);
  mc::state(mc::Hash()(d)(e));
}
} // namespace l02
