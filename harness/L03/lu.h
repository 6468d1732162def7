#include "../linalg.h"
namespace l03 {
using namespace lin;
using ref::operator<<;

inline double maxabs(const mat& a) { double s = 1; for(double v : a.d) s = std::fmax(s, std::fabs(v)); return s; }
inline mat lower(const mat& f) { mat o = mat::identity(f.r); for(int i = 0; i < f.r; ++i) for(int j = 0; j < i; ++j) o(i, j) = f(i, j); return o; }
inline mat upper(const mat& f) { mat o(f.r, f.r); for(int i = 0; i < f.r; ++i) for(int j = i; j < f.r; ++j) o(i, j) = f(i, j); return o; }
inline mat leading(const mat& a, int n) { mat o(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) o(i, j) = a(i, j); return o; }
inline bool factorable(const mat& a) { for(int n = 1; n <= a.r; ++n) if(xdet(leading(a, n)) == 0) return false; return true; }

// Every right-hand side over {-1,0,1} for small n, a spanning set beyond.
inline ref::vec rhs(int n, bool full)
{
  ref::vec b(static_cast<size_t>(n), 0.);
  if(n <= 2 || (n == 3 && full)) { for(double& v : b) v = mc::choose(3) - 1; return b; }
  // (3x3 in every configuration and 5x5, 6x6: two dense right-hand sides.)
  const int k = full && n < 6 ? mc::choose(n + 2) : mc::thorough() ? mc::choose(n + 2) : n + mc::choose(2);
  for(int i = 0; i < n; ++i) b[size_t(i)] = k < n ? (i == k) : k == n ? i + 1 : (i % 2 ? -2 : 3);
  return b;
}
template<class V> void putv(V& v, const ref::vec& b) { for(int i = 0; i < v.size(); ++i) v[i] = static_cast<value_type_trait_of_t<V>>(b[size_t(i)]); }

// A x = b within rounding, judged by the residual.
inline bool solves(const mat& a, const ref::vec& x, const ref::vec& b, double t)
{
  double s = 1;
  for(double v : x) { if(!(std::fabs(v) < 1e100)) return false; s = std::fmax(s, std::fabs(v)); }
  return ref::near(ref::mul(a, x), b, t * s * maxabs(a));
}

template<class M, class V, int N, bool deep> void solve()
{
  using E = value_type_trait_of_t<M>;
  const double t = tol<E>();
  mat a = any(N, deep);
  const double d = xdet(a);
  Obj<M> o(N);
  put(o.m, a);
  const M& m = o.m;
  const mat before = ref::readm(m);
  mc::state(mc::Hash()(d));

  // Pivoted factors.
  const auto lup = lu_pivot(m);
  const mat f = ref::readm(lup.lu), L = lower(f), U = upper(f);
  MC_CHECK(ref::same(ref::readm(m), before), "argument changed", a << " became " << ref::readm(m));
  MC_CHECK(lup.sign == 0 || lup.sign == 1 || lup.sign == -1, "sign", a << " sign " << lup.sign);
  MC_CHECK(lup.sign != 0 || d == 0, "sign", a << " has determinant " << d << " but is reported singular");
  if(d == 0) {
    double least = 1;
    for(int i = 0; i < N; ++i) least = std::fmin(least, std::fabs(U(i, i)));
    // Elimination of these is exact up to 3x3; above, a rounded zero pivot may remain.
    bool integral = true;
    for(double v : a.d) integral = integral && v == std::floor(v);
    MC_CHECK(lup.sign == 0 || ((N > 3 || !integral) && least < 1e-5), "singular", a << " is singular but has sign " << lup.sign << " and factors " << f);
  }
  if(lup.sign) {
    std::vector<int> seen(static_cast<size_t>(N), 0);
    int parity = 1;
    MC_CHECK(int(lup.order.size()) == N, "order", "size " << lup.order.size());
    for(int i = 0; i < N; ++i) {
      const int k = lup.order[size_t(i)];
      MC_CHECK(k >= 0 && k < N && !seen[size_t(k)]++, "order", a << " row order is not a permutation: " << k);
      for(int j = 0; j < i; ++j) if(lup.order[size_t(j)] > k) parity = -parity;
    }
    MC_CHECK(lup.sign == parity, "sign", a << " sign " << lup.sign << " but the row order has parity " << parity);
    mat pa(N, N);
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) pa(i, j) = before(lup.order[size_t(i)], j);
    MC_CHECK(ref::near(ref::mul(L, U), pa, t * maxabs(a)), "factors", a << ": L U = " << ref::mul(L, U) << " but P A = " << pa);
    for(double v : L.d) MC_CHECK(std::fabs(v) <= 1 + t, "growth", a << " lower factor " << L);
  }
  mc::step(1);
  // The same, from a result object and from an expression.
  {
    lu_pivot_result<temporary_of_t<M>> r{temporary_of_t<M>(m)};
    lu_pivot(r);
    MC_CHECK(r.sign == lup.sign && ref::near(ref::readm(r.lu), f, t), "in place", a << " factors " << ref::readm(r.lu) << " instead of " << f);
    const auto e = lu_pivot(m * E(2));
    MC_CHECK(d == 0 || (e.sign == lup.sign && ref::near(upper(ref::readm(e.lu)), ref::scale(U, 2), t * maxabs(U))), "expression", a << " doubled: factors " << ref::readm(e.lu));
    if(lup.sign) for(int i = 0; i < N; ++i)
      MC_CHECK(r.order[size_t(i)] == lup.order[size_t(i)], "in place", a << " other row order");
  }
  mc::step(2);

  // Solutions.
  const ref::vec b = rhs(N, deep);
  V vb, vx;
  if constexpr(!is_fixed_size<vector_traits<V>>::value) vb.resize(N), vx.resize(N);
  putv(vb, b);
  for(int i = 0; i < N; ++i) vx[i] = E(77);
  if(lup.sign == 0) {
    bool thrown = false;
    try { lu_solve(lup, vx, vb); } catch(const std::invalid_argument&) { thrown = true; }
    MC_CHECK(thrown, "singular solve", a << " solved without an error: " << ref::read(vx));
    thrown = false;
    try { auto x = lu_solve(lup, vb); (void) x; } catch(const std::invalid_argument&) { thrown = true; }
    MC_CHECK(thrown, "singular solve", a << " solved without an error");
    for(int i = 0; i < N; ++i) MC_CHECK(vx[i] == E(77), "singular solve", a << " solution vector overwritten: " << ref::read(vx));
    mc::step(2);
  }
  else if(d != 0) {
    const mat fl = ref::readm(lup.lu);
    lu_solve(lup, vx, vb);
    MC_CHECK(solves(a, ref::read(vx), b, t), "pivoted solve", a << " x = " << b << ": " << ref::read(vx));
    MC_CHECK(ref::same(ref::read(vb), b) && ref::same(ref::readm(lup.lu), fl), "argument changed", b << " became " << ref::read(vb));
    const auto y = lu_solve(lup, vb);
    MC_CHECK(ref::same(ref::read(y), ref::read(vx)), "forms", a << " x = " << b << ": " << ref::read(y) << " or " << ref::read(vx));
    const auto z = lu_solve(lup, vb + vb);
    MC_CHECK(solves(a, ref::read(z), ref::scale(b, 2), t), "pivoted solve", a << " x = 2 " << b << ": " << ref::read(z));
    lu_solve(lup, vb, vb);
    MC_CHECK(ref::same(ref::read(vb), ref::read(vx)), "in place", a << " x = " << b << " into b: " << ref::read(vb) << " instead of " << ref::read(vx));
    putv(vb, b);
    // Integer right-hand side, double solution; dynamic and external vectors.
    vector<int, dynamic<>> ib(N);
    putv(ib, b);
    vector<E, dynamic<>> dx(N);
    lu_solve(lup, dx, ib);
    MC_CHECK(ref::near(ref::read(dx), ref::read(vx), t * maxabs(f)), "mixed types", a << " x = " << b << ": " << ref::read(dx) << " instead of " << ref::read(vx));
    std::vector<E> buf(static_cast<size_t>(N + 2), E(55));
    vector<E, external<>> ex(buf.data() + 1, N);
    lu_solve(lup, ex, vb);
    MC_CHECK(ref::same(ref::read(ex), ref::read(vx)) && buf[0] == E(55) && buf[size_t(N) + 1] == E(55), "external solution", a << " x = " << b << ": " << ref::read(ex));
    mc::step(6);
  }

  // Unpivoted factors.
  if(!factorable(a)) return;
  const auto F = lu(m);
  const mat g = ref::readm(F);
  MC_CHECK(ref::same(ref::readm(m), before), "argument changed", a << " became " << ref::readm(m));
  MC_CHECK(ref::near(ref::mul(lower(g), upper(g)), before, t * maxabs(g) * maxabs(g)), "unpivoted factors", a << ": L U = " << ref::mul(lower(g), upper(g)));
  const mat h = ref::readm(lu(m + m));
  MC_CHECK(ref::near(upper(h), ref::scale(upper(g), 2), t * maxabs(g)) && ref::near(lower(h), lower(g), t * maxabs(g)), "unpivoted factors", a << " doubled: " << h << " instead of " << g);
  lu_solve(F, vx, vb);
  const double w = t * maxabs(g) * maxabs(g);
  MC_CHECK(solves(a, ref::read(vx), b, w), "unpivoted solve", a << " x = " << b << ": " << ref::read(vx));
  const auto q = lu_solve(F, vb);
  MC_CHECK(ref::same(ref::read(q), ref::read(vx)), "forms", a << " x = " << b << ": " << ref::read(q) << " or " << ref::read(vx));
  vector<int, dynamic<>> ib(N);
  putv(ib, b);
  vector<E, dynamic<>> dx(N);
  lu_solve(F, dx, ib);
  MC_CHECK(ref::near(ref::read(dx), ref::read(vx), w), "mixed types", a << " x = " << b << ": " << ref::read(dx) << " instead of " << ref::read(vx));
  MC_CHECK(ref::same(ref::read(vb), b) && ref::same(ref::readm(F), g), "argument changed", b << " became " << ref::read(vb));
  lu_solve(F, vb, vb);
  MC_CHECK(ref::same(ref::read(vb), ref::read(vx)), "in place", a << " x = " << b << " into b: " << ref::read(vb));
  mc::step(6);
}

// Sizes that do not fit are refused: r x c matrix, n-vector b, k-vector x.
template<class E, class L> void sizes()
{
  const int r = mc::choose(4), c = mc::choose(4), n = mc::choose(4), k = mc::choose(4);
  matrix<E, dynamic<>, col_basis, L> m(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = E(i == j ? 2 : 0);
  vector<E, dynamic<>> b(n), x(k);
  for(int i = 0; i < n; ++i) b[i] = E(i + 1);
  for(int i = 0; i < k; ++i) x[i] = E(77);
  int err = 0;
  try { auto q = lu(m); MC_CHECK(ref::same(ref::readm(q), ref::readm(m)), "diagonal", ""); } catch(const non_square_matrix_error&) { err = 1; }
  MC_CHECK(err == (r != c), "lu", r << "x" << c << (err ? " refused" : " accepted"));
  err = 0;
  try { auto q = lu_pivot(m); MC_CHECK(q.sign == 1, "diagonal", "sign " << q.sign); } catch(const non_square_matrix_error&) { err = 1; }
  MC_CHECK(err == (r != c), "lu_pivot", r << "x" << c << (err ? " refused" : " accepted"));
  mc::step(2);
  mc::state(mc::Hash()(r)(c)(n)(k));
  if(r != c) {
    err = 0;
    try { lu_solve(m, x, b); } catch(const std::runtime_error&) { err = 1; }
    MC_CHECK(err, "lu_solve", r << "x" << c << " accepted");
    mc::step(1);
    return;
  }
  const auto F = lu(m);
  const auto P = lu_pivot(m);
  const bool bad = n != r || k != r;
  for(int form = 0; form < 4; ++form) {
    for(int i = 0; i < k; ++i) x[i] = E(77);
    const bool refuse = form < 2 ? bad : n != r;
    err = 0;
    vector<E, dynamic<>> y;
    try {
      if(form == 0) lu_solve(F, x, b), y = x;
      else if(form == 1) lu_solve(P, x, b), y = x;
      else if(form == 2) y = lu_solve(F, b);
      else y = lu_solve(P, b);
    } catch(const std::runtime_error&) { err = 1; }
    MC_CHECK(err == refuse, "lu_solve", r << "x" << c << " with right-hand side of size " << n << " and solution of size " << k << (err ? " refused" : " accepted"));
    if(err) { for(int i = 0; i < k; ++i) MC_CHECK(x[i] == E(77), "refused solve wrote", ref::read(x)); }
    else {
      MC_CHECK(y.size() == r, "solution size", y.size());
      for(int i = 0; i < r; ++i) MC_CHECK(y[i] == E(i + 1) / 2, "solution", ref::read(y));
    }
    mc::step(1);
  }
}
} // namespace l03
