#include "../linalg.h"
namespace l01 {
using namespace lin;

template<class M, int N, bool deep> void determinants()
{
  using E = value_type_trait_of_t<M>;
  const mat a = any(N, deep);
  const double want = xdet(a), t = tol<E>();
  Obj<M> o(N);
  M& m = o.m;
  put(m, a);
  const M& cm = m;
  const mat before = ref::readm(m);
  const double got = double(m.determinant());
  MC_CHECK(ref::near(got, want, t), "member", a << " determinant " << got << " instead of " << want);
  static_assert(std::is_same_v<decltype(determinant(m)), E>, "type");
  MC_CHECK(ref::near(double(determinant(cm)), want, t), "function", a << " determinant " << determinant(cm) << " instead of " << want);
  MC_CHECK(ref::near(double(determinant(transpose(m))), want, t), "transpose", a << " transposed has determinant " << determinant(transpose(m)));
  MC_CHECK(ref::near(ref::readm(m), a, 1e-12) && ref::same(ref::readm(m), before), "argument changed", a << " became " << ref::readm(m));
  double scale = 1;
  for(int i = 0; i < N; ++i) scale *= -2;
  MC_CHECK(ref::near(double(determinant(m * E(-2))), want * scale, t), "scaled", a << " times -2 has determinant " << determinant(m * E(-2)));
  MC_CHECK(ref::near(double((m + m).determinant()), want * std::fabs(scale), t), "sum", a << " doubled has determinant " << (m + m).determinant());
  mc::step(5);
  // Exchange of two rows (all pairs), of two columns, and addition of one row to another.
  if(N > 1) {
    const int r = mc::choose(N - 1);
    mat s = a, c = a, p = a;
    for(int j = 0; j < N; ++j) std::swap(s(r, j), s(r + 1, j)), std::swap(c(j, r), c(j, N - 1)), p(r + 1, j) += p(r, j);
    put(m, s);
    MC_CHECK(ref::near(double(determinant(m)), -want, t), "row exchange", s << " determinant " << determinant(m));
    put(m, c);
    MC_CHECK(ref::near(double(determinant(m)), r == N - 1 ? want : -want, t), "column exchange", c << " determinant " << determinant(m));
    put(m, p);
    MC_CHECK(ref::near(double(determinant(m)), want, t), "row addition", p << " determinant " << determinant(m));
    mc::step(3);
  }
  // Multiplicative, with a fixed partner of determinant 3 (even sizes) or -3.
  mat b = mat::identity(N);
  for(int i = 0; i < N; ++i) { b(i, (i + 1) % N) += 1; if(i + 1 < N) b(i + 1, 0) -= 1; }
  b(0, 0) = 3;
  const double bd = xdet(b);
  Obj<M> ob(N);
  put(m, a);
  put(ob.m, b);
  MC_CHECK(ref::near(double(determinant(m * ob.m)), want * bd, 4 * t), "multiplicative", a << " * " << b << " determinant " << determinant(m * ob.m));
  MC_CHECK(ref::near(double(determinant(ob.m * m)), want * bd, 4 * t), "multiplicative", b << " * " << a << " determinant " << determinant(ob.m * m));
  mc::step(2);
  mc::state(mc::Hash()(want)(a.d[0]));
}

// Magnitude does not matter: scaling by powers of two scales the result exactly.
template<class M, int N> void scaled()
{
  using E = value_type_trait_of_t<M>;
  mat a = N <= 3 ? all(N, -1, 1) : signed_perm(N);
  const int e = mc::choose(5) * 4 - 8;
  const double want = xdet(a), f = std::ldexp(1., e);
  double s = 1;
  Obj<M> o(N);
  for(double& v : a.d) v *= f;
  for(int i = 0; i < N; ++i) s *= f;
  put(o.m, a);
  const double got = double(determinant(o.m));
  MC_CHECK(std::fabs(got - want * s) <= 1e-5 * s, "scale", a << " determinant " << got << " instead of " << want * s);
  (void) sizeof(E);
  mc::step(1);
  mc::state(mc::Hash()(want)(e));
}
} // namespace l01
