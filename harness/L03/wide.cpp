// Factorisations and solutions of larger systems.
#include "../widelin.h"
namespace {
using namespace wlin;
mat lower(const mat& f) { mat o = mat::identity(f.r); for(int i = 0; i < f.r; ++i) for(int j = 0; j < i; ++j) o(i, j) = f(i, j); return o; }
mat upper(const mat& f) { mat o(f.r, f.r); for(int i = 0; i < f.r; ++i) for(int j = i; j < f.r; ++j) o(i, j) = f(i, j); return o; }
template<class M> void one(int n)
{
  using E = cml::value_type_trait_of_t<M>; using DV = cml::vector<E, cml::dynamic<>>;
  const Sys s = system(n); const double e = sizeof(E) == 4 ? 1e-5 : 1e-13;
  lin::Obj<M> o(n); M& m = o.m; lin::put(m, s.a); const M& k = m; const mat before = readm(m);
  mc::state(mc::Hash()(n)(s.det)(s.a(0, 0)));
  auto factors = [&](const auto& p, double f) {
    std::vector<char> seen(static_cast<size_t>(n), 0);
    MC_CHECK(int(p.order.size()) == n, "large", "row order of size " << p.order.size() << " for order " << n);
    for(int i : p.order) { MC_CHECK(i >= 0 && i < n && !seen[size_t(i)], "large", "row order of order " << n << " is no permutation"); seen[size_t(i)] = 1; }
    mat pa(n, n); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) pa(i, j) = f * s.a(p.order[size_t(i)], j);
    const mat g = readm(p.lu), lu = mul(lower(g), upper(g));
    MC_CHECK(near(lu, pa, e * n * top(pa)), "large", "L U of order " << n << ", " << s.name << ": " << at(lu, pa));
    for(double v : lower(g).d) MC_CHECK(std::fabs(v) <= 1 + e, "large", "lower factor of order " << n << " has " << v);
    MC_CHECK(p.sign == parity(std::vector<int>(p.order.begin(), p.order.end())), "large", "sign of order " << n << ", " << s.name << " is " << p.sign);
    mc::step();
  };
  const auto p = cml::lu_pivot(k);
  MC_CHECK(same(readm(m), before), "argument changed", at(readm(m), before));
  MC_CHECK((p.sign == 0) == (s.det == 0), "large", s.name << " of order " << n << " has determinant " << s.det << " and sign " << p.sign);
  const int h = mc::choose(3); vec b(static_cast<size_t>(n)); for(int i = 0; i < n; ++i) b[size_t(i)] = h == 0 ? i + 1 : h == 1 ? (i == n - 1) : small(i, 11);
  DV vb(n), vx(n); for(int i = 0; i < n; ++i) vb[i] = E(b[size_t(i)]), vx[i] = E(77);
  if(s.det == 0) { bool thrown = false; try { cml::lu_solve(p, vx, vb); } catch(const std::invalid_argument&) { thrown = true; } MC_CHECK(thrown, "large", "singular of order " << n << " solved"); mc::step(); return; }
  factors(p, 1); factors(cml::lu_pivot(m + m), 2);
  auto solves = [&](const vec& x, const vec& c, const char* what) { double g = 1; for(double v : x) g = std::fmax(g, std::fabs(v)); const vec ax = mul(s.a, x); MC_CHECK(near(ax, c, e * n * g * top(s.a)), "large", what << " of order " << n << ", " << s.name << ": A x: " << at(ax, c)); mc::step(); };
  cml::lu_solve(p, vx, vb); solves(read(vx), b, "pivoted solution"); MC_CHECK(same(read(vb), b), "argument changed", at(read(vb), b));
  { const auto y = cml::lu_solve(p, vb); solves(read(y), b, "returned pivoted solution"); const auto z = cml::lu_solve(p, vb + vb); solves(read(z), scale(b, 2), "pivoted solution of an expression"); }
  { VB<E, cml::external<>> X(n); cml::lu_solve(p, X.v, vb); solves(read(X.v), b, "pivoted solution into a view"); MC_CHECK(X.ok(), "guard", "lu_solve"); DV c(vb); cml::lu_solve(p, c, c); solves(read(c), b, "pivoted solution in place"); }
  if(!s.plain) return;
  const auto f = cml::lu(k); const mat g = readm(f), lu = mul(lower(g), upper(g)); MC_CHECK(near(lu, s.a, e * n * 8 * top(g) * top(g)), "large", "unpivoted L U of order " << n << ", " << s.name << ": " << at(lu, s.a)); mc::step();
  for(int i = 0; i < n; ++i) vx[i] = E(77);
  cml::lu_solve(f, vx, vb); solves(read(vx), b, "unpivoted solution"); const auto y = cml::lu_solve(f, vb + vb); solves(read(y), scale(b, 2), "unpivoted solution of an expression");
  { DV c(vb); cml::lu_solve(f, c, c); solves(read(c), b, "unpivoted solution in place"); }
}
template<class E, class B, class L> void run() { const int n = order(); if(mc::choose(2)) one<cml::matrix<E, cml::external<>, B, L>>(n); else one<cml::matrix<E, cml::dynamic<>, B, L>>(n); }
template<class E, class B, class L> void fix() { one_of(nums<5, 7, 8, 9, 16>(), [](auto n) { one<cml::matrix<E, cml::fixed<decltype(n)::value, decltype(n)::value>, B, L>>(n); }); }
struct R { R() {
  mc::add("large double row basis row major", run<double, cml::row_basis, cml::row_major>); mc::add("large double col basis col major", run<double, cml::col_basis, cml::col_major>);
  mc::add("large float col basis row major", run<float, cml::col_basis, cml::row_major>); mc::add("large fixed double row basis col major", fix<double, cml::row_basis, cml::col_major>);
} } r;
}
