// A dynamic vector assigned a shorter expression over its own elements: every
// element read must be one of the vector's, with its old value.
#include "life.h"
namespace {
using namespace e07;
template<class V, class E> void self()
{
  const int n = 1 + mc::choose(mc::thorough() ? 40 : 9), i = mc::choose(n), form = mc::choose(8);
  V v(n), u(n);
  std::vector<E> m;
  for(int k = 0; k < n; ++k) v[k] = E(k + 100), u[k] = E(3 * k + 7), m.push_back(E(k + 100));
  auto drop = [&](std::vector<E> x, int k) { x.erase(x.begin() + k); return x; };
  auto each = [&](std::vector<E> x, auto f) { for(E& y : x) y = f(y); return x; };
  std::vector<E> want;
  const int s = mc::choose(2);
  mc::step();
  switch(form) {
  case 0: want = drop(m, i); if(s) v = v.subvector(i); else v = cml::subvector(v, i); break;
  case 1: want = each(drop(m, i), [](E x) { return E(-x); }); if(s) v = -v.subvector(i); else { const auto e = -cml::subvector(v, i); v = e; } break;
  case 2: want = each(drop(m, i), [](E x) { return E(2 * x); }); if(s) v = E(2) * v.subvector(i); else v = cml::subvector(v, i) * E(2); break;
  case 3: { if(n < 2) return; const int j = mc::choose(n - 1); want = drop(drop(m, i), j); if(s) v = cml::subvector(cml::subvector(v, i), j); else { const auto e = cml::subvector(v, i); v = cml::subvector(e, j); } } break;
  case 4: { std::vector<E> y; for(int k = 0; k < n; ++k) y.push_back(u[k]); y = drop(y, i); want = drop(m, i); for(size_t k = 0; k < y.size(); ++k) want[k] = E(want[k] + y[k]); if(s) v = v.subvector(i) + u.subvector(i); else v = u.subvector(i) + v.subvector(i); } break;
  case 5: want = drop(m, i); want.push_back(E(5)); if(s) v = V(v.subvector(i), E(5)); else { V t(cml::subvector(v, i), E(5)); v = t; } break;
  case 6: { want = drop(m, i); V t; t = s ? v.subvector(i) : cml::subvector(v, i); v = std::move(t); } break;
  case 7: want = drop(m, i), want.insert(want.end(), {E(1), E(2)}); if(s) { V t(v.subvector(i), E(1), E(2)); v = t; } else v = V(cml::subvector(v, i), E(1), E(2)); break;
  }
  mc::Hash H; H(n)(i)(form);
  MC_CHECK(v.size() == int(want.size()), "size", "form " << form << ": " << v.size() << " elements, expected " << want.size());
  for(size_t k = 0; k < want.size(); ++k) { H(double(v[int(k)])); MC_CHECK(v[int(k)] == want[k], "self", "form " << form << " of " << n << " elements without " << i << ": element " << k << " is " << double(v[int(k)]) << ", expected " << double(want[k])); }
  mc::state(H);
}
struct R { R() {
  mc::add("own subvector double", self<cml::vector<double, cml::dynamic<>>, double>);
  mc::add("own subvector int", self<cml::vector<int, cml::dynamic<>>, int>);
  mc::add("own subvector float", self<cml::vector<float, cml::dynamic<>>, float>);
} } r;
}
