// Vector products over every size of the list, in every storage kind.
#include "../wide.h"
namespace {
using namespace wide;
template<class T, bool Fixed> void all()
{
  vectors<Fixed>([](auto t, int n) {
    using S = typename decltype(t)::type;
    if(!n) return;
    VB<T, S> A(n), B(n); auto &a = A.v, &b = B.v;
    cml::vector<T, cml::dynamic<>> d(n);
    const int hot = mc::choose(4); // distinct contents, or all but one element zero at the front, middle or back
    auto c = [&](int i, int salt) { return hot && i != (hot - 1) * (n - 1) / 2 ? 0. : small(i, salt); };
    const vec x = fillv(a, n, [&](int i) { return c(i, 0); }), y = fillv(b, n, [](int i) { return small(i, 5); }), z = fillv(d, n, [](int i) { return small(i, 3); });
    auto num = [&](double got, double want, const char* what) { MC_CHECK(got == want, "large", what << " of size " << n << " is " << got << ", expected " << want); mc::step(); };
    auto out = [&](const vec& p, const vec& q) { mat o(int(p.size()), int(q.size())); for(int i = 0; i < o.r; ++i) for(int j = 0; j < o.c; ++j) o(i, j) = p[size_t(i)] * q[size_t(j)]; return o; };
    switch(mc::choose(6)) {
    case 0:
      num(double(cml::dot(a, b)), dot(x, y), "dot(a, b)"); num(double(cml::dot(b, a)), dot(x, y), "dot(b, a)"); num(double(cml::dot(a, d)), dot(x, z), "dot(a, dynamic)"); num(double(cml::dot(d, b)), dot(z, y), "dot(dynamic, b)");
      num(double(cml::dot(a + b, d - b)), dot(add(x, y), add(z, y, -1)), "dot(a + b, d - b)"); break;
    case 1:
      num(double(a.length_squared()), dot(x, x), "length_squared"); num(double((a + d).length_squared()), dot(add(x, z), add(x, z)), "length_squared of a sum"); num(double(cml::length_squared(a)), dot(x, x), "length_squared(a)"); break;
    case 2: if constexpr(std::is_floating_point_v<T>) {
      const double tol = sizeof(T) == 4 ? 4e-6 : 1e-14;
      MC_CHECK(near(double(a.length()), len(x), tol), "large", "length of size " << n << " is " << double(a.length())); MC_CHECK(near(double(cml::length(d)), len(z), tol), "large", "length(d) of size " << n << " is " << double(cml::length(d)));
      if(dot(x, x) > 0) { const vec g = read(cml::normalize(a)); MC_CHECK(near(g, unit(x), tol), "large", "normalize: " << at(g, unit(x))); auto m = d; m = a; m.normalize(); MC_CHECK(near(read(m), unit(x), tol), "large", "normalize in place: " << at(read(m), unit(x))); }
      mc::step(4); } break;
    case 3: { vec w(x); for(size_t i = 0; i < w.size(); ++i) w[i] *= y[i]; expectv(cml::hadamard(a, b), w, "hadamard(a, b)"); } break;
    case 4: {
      const auto e = cml::outer(a, b); expectm(e, out(x, y), "outer(a, b)");
      expectm(cml::outer(d, a), out(z, x), "outer(d, a)"); expectm(cml::outer(a + b, d), out(add(x, y), z), "outer(a + b, d)");
      cml::matrix<T, cml::dynamic<>, cml::col_basis, cml::col_major> m; m = e; expectm(m, out(x, y), "outer(a, b) stored"); } break;
    case 5: { // sizes that differ
      const int k = 1 + mc::choose(9); cml::vector<T, cml::dynamic<>> v(k); const vec w = fillv(v, k, [](int i) { return small(i, 9); });
      expectm(cml::outer(a, v), out(x, w), "outer(a, v)"); expectm(cml::outer(v, a), out(w, x), "outer(v, a)"); } break;
    }
    expectv(a, x, "left operand afterwards"); expectv(b, y, "right operand afterwards"); MC_CHECK(A.ok() && B.ok(), "guard", "product"); mc::state(hash(x) ^ hash(y));
  });
}
struct R { R() { mc::add("large double", all<double, true>); mc::add("large float", all<float, false>); mc::add("large int", all<int, false>); } } r;
}
