// Histories over large vectors: construct at one size, resize / assign at
// another, once more, every triple of forms, with the counting allocator.
#include "alloc.h"
#include "wide.h"
#include <optional>
namespace {
using namespace wide;
using A = h::CountAlloc<void*>;
template<class E, int Form> void history()
{
  using V = cml::vector<E, cml::dynamic<A>>;
  auto& as = h::alloc_state(); as.reset();
  {
    const int n = size();
    std::optional<V> o; std::vector<E> m; std::vector<char> known;
    int salt = 0;
    auto src = [&](int k) { std::vector<E> s; for(int i = 0; i < k; ++i) s.push_back(E(val(i, salt))); ++salt; return s; };
    auto is = [&](const std::vector<E>& s) { m = s; known.assign(s.size(), 1); };
    auto check = [&](const char* w) {
      MC_CHECK(as.bad.empty(), "allocator", w << ": " << as.bad);
      MC_CHECK(o->size() == int(m.size()) && o->end() - o->begin() == int(m.size()) && o->begin() == o->data(), "size", w << ": size " << o->size() << ", expected " << m.size());
      for(size_t i = 0; i < m.size(); ++i) if(known[i]) MC_CHECK((*o)[int(i)] == m[i] && o->data()[i] == m[i], "element", w << ": element " << i << " of " << m.size() << " is " << double((*o)[int(i)]) << ", expected " << double(m[i]));
      mc::step();
    };
    switch(Form) {
    case 0: { o.emplace(n); const auto s = src(n); for(int i = 0; i < n; ++i) (*o)[i] = s[size_t(i)]; is(s); check("construct(size)"); } break;
    case 1: { const auto s = src(n); const E* p = s.data(); o.emplace(p, n); is(s); check("construct(ptr,size)"); } break;
    case 2: { const auto s = src(n); V t(n); for(int i = 0; i < n; ++i) t.put(i, s[size_t(i)]); o.emplace(t); is(s); check("construct(copy)"); for(int i = 0; i < n; ++i) t[i] = E(0); check("construct(copy), source overwritten"); } break;
    case 3: { if(n < 1) return; auto s = src(n); V t(n - 1); for(int i = 0; i < n - 1; ++i) t.put(i, s[size_t(i)]); o.emplace(t, s[size_t(n - 1)]); is(s); check("construct(vector,element)"); } break;
    }
    for(int d = 0; d < 2; ++d) {
      // The first operation uses every size of the list, the second a few.
      static const int few[] = {5, 13, 33, 0, 1, 8, 16, 64, 130};
      const bool full = mc::thorough();
      static const int ops[] = {0, 2, 7, 8, 1, 3, 4, 5, 6};
      const int op = ops[mc::choose(full || d == 0 ? 9 : 4)];
      const int k = op >= 6 ? 0 : d == 0 ? size_quick() : few[mc::choose(full ? 9 : 3)];
      switch(op) {
      case 0: { o->resize(k); const size_t old = m.size(); m.resize(size_t(k)); known.resize(size_t(k), 0); (void) old; check("resize"); } break;
      case 1: { o->resize_fast(k); if(size_t(k) != m.size()) { m.assign(size_t(k), E(0)); known.assign(size_t(k), 0); } check("resize_fast"); const auto s = src(k); for(int i = 0; i < k; ++i) o->put(i, s[size_t(i)]); is(s); check("put after resize_fast"); } break;
      case 2: { const auto s = src(k); V t(s.data(), k); *o = static_cast<const V&>(t); is(s); check("copy-assign"); for(int i = 0; i < k; ++i) t[i] = E(0); check("copy-assign, source overwritten"); } break;
      case 3: { const auto s = src(k); V t(s.data(), k); *o = std::move(t); is(s); check("move-assign"); } break;
      case 4: { const auto s = src(k); std::vector<E> b(s); cml::vector<E, cml::external<>> t(b.data(), k); *o = t; is(s); for(E& x : b) x = E(0); check("assign view, source overwritten"); } break;
      case 5: { const auto s = src(k); V t(s.data(), k); *o = t + t; auto w = s; for(E& x : w) x = E(x + x); is(w); check("assign expression"); } break;
      case 6: { const int z = int(m.size()); E v = E(7); o->fill(v); is(std::vector<E>(size_t(z), v)); check("fill"); } break;
      case 7: { for(char c : known) if(!c) return; *o = *o - V(*o); for(E& x : m) x = E(0); check("subtract a copy of itself"); } break;
      case 8: { const int z = int(m.size()), i = mc::choose(3) * (z - 1) / 2; if(z < 1) return; if(mc::choose(2)) *o = o->subvector(i); else { for(char c : known) if(!c) return; *o = -cml::subvector(*o, i); for(E& x : m) x = E(-x); } m.erase(m.begin() + i), known.erase(known.begin() + i); check("assign its own subvector"); } break;
      }
    }
    mc::Hash H; H(int(m.size())); for(size_t i = 0; i < m.size(); ++i) H(known[i] ? double(m[i]) : -1); mc::state(H);
  }
  MC_CHECK(as.bad.empty(), "allocator", "at destruction: " << as.bad);
  MC_CHECK(as.live.empty(), "leak", as.live.size() << " allocation(s) never released");
}
template<class E> void reg(const char* t)
{
  const std::string n = std::string("large ") + t + ", ";
  mc::add(n + "size", history<E, 0>); mc::add(n + "pointer", history<E, 1>); mc::add(n + "copy", history<E, 2>); mc::add(n + "vector and element", history<E, 3>);
}
struct R { R() { reg<double>("double"); reg<int>("int"); 
#ifdef MC_THOROUGH
  reg<float>("float");
#endif
} } r;
}
