// Determinants of larger matrices.
#include "../widelin.h"
namespace {
using namespace wlin;
template<class M> void one(int n)
{
  using E = cml::value_type_trait_of_t<M>;
  const Sys s = system(n); const double t = sizeof(E) == 4 ? 2e-4 : 1e-11;
  lin::Obj<M> o(n); M& m = o.m; lin::put(m, s.a); const M& k = m; const mat before = readm(m);
  auto is = [&](double got, double want, const char* what) { MC_CHECK(near(got, want, t), "large", what << " of order " << n << ", " << s.name << ", is " << got << ", expected " << want); mc::step(); };
  is(double(m.determinant()), s.det, "member"); is(double(cml::determinant(k)), s.det, "function"); is(double(cml::determinant(cml::transpose(k))), s.det, "determinant of the transpose");
  is(double(cml::determinant(-m)), n % 2 ? -s.det : s.det, "determinant of -m"); is(double((m * E(2)).determinant()) / std::ldexp(1., n), s.det, "determinant of 2m, over 2^n");
  MC_CHECK(same(readm(m), before), "argument changed", at(readm(m), before));
  mat x = s.a; const int r = mc::choose(3) * (n - 1) / 2, q = (r + 1) % n; for(int j = 0; j < n; ++j) std::swap(x(r, j), x(q, j)); lin::put(m, x); is(double(m.determinant()), -s.det, "determinant after a row exchange");
  mat y = s.a; for(int i = 0; i < n; ++i) y(i, r) += y(i, q); lin::put(m, y); is(double(m.determinant()), s.det, "determinant after a column addition");
  mc::state(mc::Hash()(n)(s.det)(s.a(0, 0)));
}
template<class E, class B, class L> void run() { const int n = order(); if(mc::choose(2)) one<cml::matrix<E, cml::external<>, B, L>>(n); else one<cml::matrix<E, cml::dynamic<>, B, L>>(n); }
template<class E, class B, class L> void fix() { one_of(nums<5, 7, 8, 9, 16>(), [](auto n) { one<cml::matrix<E, cml::fixed<decltype(n)::value, decltype(n)::value>, B, L>>(n); }); }
struct R { R() {
  mc::add("large double row basis row major", run<double, cml::row_basis, cml::row_major>); mc::add("large double col basis col major", run<double, cml::col_basis, cml::col_major>);
  mc::add("large float col basis row major", run<float, cml::col_basis, cml::row_major>); mc::add("large fixed double row basis col major", fix<double, cml::row_basis, cml::col_major>);
} } r;
}
