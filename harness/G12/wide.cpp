// Text of vectors and matrices of every size of the list.
#include "print.h"
#include "../wide.h"
namespace {
using namespace wide;
template<class T, bool Fixed> void vecs()
{
  vectors<Fixed>([](auto t, int n) {
    using S = typename decltype(t)::type;
    VB<T, S> A(n); auto& a = A.v; const vec x = fillv(a, n, [](int i) { return val(i) + (std::is_integral_v<T> ? 0 : .25); });
    const int f = mc::choose(int(g12::Formats));
    std::vector<T> e, two; for(double d : x) { e.push_back(T(d)); two.push_back(T(2 * T(d))); }
    auto read = [&] { return ref::read(a); };
    g12::shows("large vector", a, g12::row_text(e, f), g12::doubles(e), f, read);
    g12::shows("large sum", a + a, g12::row_text(two, f), g12::doubles(two), f, read);
    MC_CHECK(A.ok(), "guard", "print"); mc::state(ref::hash(x) ^ uint64_t(f));
  });
}
template<class T, class B, class L, bool Fixed> void mats()
{
  matrices<Fixed>([](auto t, int r, int c) {
    using S = typename decltype(t)::type;
    MB<T, S, B, L> A(r, c); auto& a = A.m; const mat x = fillm(a, r, c, [](int i) { return val(i) + (std::is_integral_v<T> ? 0 : .25); });
    const int f = mc::choose(2);
    std::vector<T> e, u; for(double d : x.d) e.push_back(T(d)); for(double d : transpose(x).d) u.push_back(T(d));
    auto read = [&] { return ref::readm(a).d; };
    g12::shows("large matrix", a, g12::mat_text(e, r, c, f), g12::doubles(e), f, read);
    g12::shows("large transpose", cml::transpose(a), g12::mat_text(u, c, r, f), g12::doubles(u), f, read);
    if(r) { const std::vector<T> w(e.end() - c, e.end()); g12::shows("last row", cml::row(a, r - 1), g12::row_text(w, f), g12::doubles(w), f, read); }
    MC_CHECK(A.ok(), "guard", "print"); mc::state(ref::hash(x) ^ uint64_t(f));
  });
}
struct R { R() {
  mc::add("large vector double", vecs<double, true>); mc::add("large vector float", vecs<float, false>); mc::add("large vector int", vecs<int, false>);
  mc::add("large matrix double row basis row major", mats<double, cml::row_basis, cml::row_major, true>);
  mc::add("large matrix double col basis col major", mats<double, cml::col_basis, cml::col_major, false>);
  mc::add("large matrix int row basis col major", mats<int, cml::row_basis, cml::col_major, false>);
} } r;
}
