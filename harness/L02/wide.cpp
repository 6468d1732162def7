// Inverses of larger matrices.
#include "../widelin.h"
namespace {
using namespace wlin;
template<class M> void one(int n)
{
  using E = cml::value_type_trait_of_t<M>;
  const Sys s = system(n); if(s.det == 0) return;
  lin::Obj<M> o(n); M& m = o.m; lin::put(m, s.a); const M& k = m; const mat before = readm(m);
  const mat I = mat::identity(n);
  auto is = [&](const mat& got, const mat& a, const char* what) {
    const double t = (sizeof(E) == 4 ? 1e-5 : 1e-13) * n * top(got) * top(a); mat p, q;
    MC_CHECK(got.r == n && got.c == n && near(p = mul(a, got), I, t) && near(q = mul(got, a), I, t), "large", what << " of order " << n << ", " << s.name << ": the product with the matrix: " << at(p, I)); mc::step();
    return got;
  };
  const mat f = is(readm(cml::inverse(k)), s.a, "inverse");
  is(readm(cml::inverse(cml::transpose(k))), transpose(s.a), "inverse of the transpose");
  is(readm(cml::inverse(m * E(2))), scale(s.a, 2), "inverse of 2m");
  MC_CHECK(same(readm(m), before), "argument changed", at(readm(m), before));
  { auto i = cml::inverse(k); MC_CHECK(near(readm(cml::inverse(i)), s.a, (sizeof(E) == 4 ? 1e-4 : 1e-12) * n * top(f)), "large", "inverse of the inverse of order " << n << ": " << at(readm(cml::inverse(i)), s.a)); mc::step(); }
  { cml::temporary_of_t<M> c(m); is(readm(std::move(c).inverse()), s.a, "inverse of a temporary"); }
  auto& r = m.inverse(); MC_CHECK(&r == &m, "returns the object", ""); MC_CHECK(near(readm(m), f, sizeof(E) == 4 ? 1e-4 : 1e-12), "large", "inverse in place of order " << n << ": " << at(readm(m), f)); mc::step();
  mc::state(mc::Hash()(n)(s.det)(s.a(0, 0)));
}
template<class E, class B, class L> void run() { const int n = order(); if(mc::choose(2)) one<cml::matrix<E, cml::external<>, B, L>>(n); else one<cml::matrix<E, cml::dynamic<>, B, L>>(n); }
template<class E, class B, class L> void fix() { one_of(nums<5, 7, 8, 9, 16>(), [](auto n) { one<cml::matrix<E, cml::fixed<decltype(n)::value, decltype(n)::value>, B, L>>(n); }); }
struct R { R() {
  mc::add("large double row basis row major", run<double, cml::row_basis, cml::row_major>); mc::add("large double col basis col major", run<double, cml::col_basis, cml::col_major>);
  mc::add("large float col basis row major", run<float, cml::col_basis, cml::row_major>); mc::add("large fixed double row basis col major", fix<double, cml::row_basis, cml::col_major>);
} } r;
}
