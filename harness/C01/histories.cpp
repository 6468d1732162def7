// C01: every operation history over dynamic vectors against a plain array model.
#include "alloc.h"
#include "list.h"
#include <cml/vector.h>
#include <optional>

namespace {

using A = h::CountAlloc<void*>;

using h::List;
template<class E> using Elems = List<std::optional<E>, 12>;

// Model of one object: elements, each known or not; or an unspecified
// (moved-from) object.
template<class E> struct Model
{
  bool alive = false, unspec = false;
  Elems<E> e;
};

template<class E> struct World
{
  using vec = cml::vector<E, cml::dynamic<A>>;
  static constexpr int MAXS = 3;
  int S;
  std::optional<vec> obj[MAXS];
  Model<E> mod[MAXS];
  int fresh = 1;
  explicit World(int s) : S(s) { h::alloc_state().reset(); }

  E next() { return E(fresh++); }
  bool full(int j) const // every element known
  {
    if(!mod[j].alive || mod[j].unspec) return false;
    for(auto& x : mod[j].e)
      if(!x) return false;
    return true;
  }

  void check(const char* op)
  {
    auto& as = h::alloc_state();
    MC_CHECK(as.bad.empty(), "allocator", op << ": " << as.bad);
    mc::Hash H;
    for(int i = 0; i < S; ++i) {
      if(!mod[i].alive) { H(99); continue; }
      if(mod[i].unspec) { H(98); continue; }
      const vec& v = *obj[i];
      const int n = int(mod[i].e.size());
      MC_CHECK(v.size() == n, "size", op << ": object " << i << " has size " << v.size() << ", expected " << n);
      MC_CHECK(v.end() - v.begin() == n && v.begin() == v.data(), "range", op << ": begin/end/data of object " << i);
      H(n);
      for(int k = 0; k < n; ++k) {
        if(!mod[i].e[k]) { H(97); continue; }
        const E w = *mod[i].e[k];
        MC_CHECK(v[k] == w, "element", op << ": object " << i << "[" << k << "] is " << v[k] << ", expected " << w);
        MC_CHECK(v.get(k) == w && v.data()[k] == w && (*obj[i])[k] == w && obj[i]->get(k) == w && obj[i]->data()[k] == w,
          "access-forms", op << ": access forms of object " << i << "[" << k << "] disagree");
        H(int(w));
      }
      for(int j = 0; j < i; ++j)
        if(mod[j].alive && obj[j]->size() > 0 && n > 0) {
          const E *a = v.data(), *b = obj[j]->data();
          MC_CHECK(a + n <= b || b + obj[j]->size() <= a, "aliasing", op << ": objects " << i << " and " << j << " share storage");
        }
    }
    mc::state(H);
  }

  void finish()
  {
    for(int i = 0; i < S; ++i) obj[i].reset();
    auto& as = h::alloc_state();
    MC_CHECK(as.bad.empty(), "allocator", "at destruction: " << as.bad);
    MC_CHECK(as.live.empty(), "leak", as.live.size() << " allocation(s) never released");
  }
};

struct Op { int kind, i, j, a; };
using OpList = List<Op, 256>;

enum {
  C_DEFAULT, C_SIZE, C_COPY, C_MOVE, C_ELEMS, C_ARRAY, C_PTR, C_PTR2, C_INIT, C_SUB, C_FIXED, C_EXPR,
  A_COPY, A_MOVE, A_FIXED, A_EXPR, A_INIT, A_ARRAY, A_CONVERT, O_SET, O_PUT, O_RESIZE, O_RESIZE_FAST, O_SWAP, O_DESTROY,
  O_ADD, O_SUBTRACT, O_MUL, O_ZERO, O_FILL, O_CARD, O_MIN, A_PLUS_SELF, A_EXPR_SHRINK, A_TEMP, O_STEAL_RET, A_SUB
};
const char* names[] = {"default-construct", "construct(size)", "copy-construct", "move-construct", "construct(elements)",
  "construct(array)", "construct(ptr,size)", "construct(size,ptr)", "construct{init-list}", "construct(vector,elem)",
  "construct(fixed)", "construct(expression)", "copy-assign", "move-assign", "assign fixed", "assign expression",
  "assign init-list", "assign array", "assign other-type", "set", "put", "resize", "resize_fast", "swap", "destroy", "+=",
  "-=", "*=", "zero", "fill", "cardinal", "minimize", "self-sum assign", "assign longer expression", "assign temporary",
  "return by value", "assign subvector"};

template<class E> OpList enabled(const World<E>& w)
{
  OpList r;
  for(int i = 0; i < w.S; ++i) {
    auto& m = w.mod[i];
    // The first dead slot is enough: slots are symmetric.
    if(!m.alive) {
      r.push_back({C_DEFAULT, i, 0, 0});
      for(int n : {0, 1, 3}) r.push_back({C_SIZE, i, 0, n});
      for(int n : {1, 2, 3}) r.push_back({C_ELEMS, i, 0, n});
      r.push_back({C_ARRAY, i, 0, 2});
      for(int n : {0, 2}) { r.push_back({C_PTR, i, 0, n}); r.push_back({C_PTR2, i, 0, n}); }
      r.push_back({C_INIT, i, 0, 3});
      r.push_back({C_FIXED, i, 0, 2});
      for(int j = 0; j < w.S; ++j)
        if(j != i && w.mod[j].alive) {
          if(!w.mod[j].unspec) {
            r.push_back({C_COPY, i, j, 0});
            r.push_back({C_EXPR, i, j, 0});
            r.push_back({C_SUB, i, j, 0});
            r.push_back({O_STEAL_RET, i, j, 0});
          }
          r.push_back({C_MOVE, i, j, 0});
        }
      break;
    }
  }
  for(int i = 0; i < w.S; ++i) {
    auto& m = w.mod[i];
    if(!m.alive) continue;
    for(int j = 0; j < w.S; ++j)
      if(w.mod[j].alive && !w.mod[j].unspec) {
        r.push_back({A_COPY, i, j, 0});
        if(j != i) r.push_back({A_EXPR, i, j, 0});
        const int m = int(w.mod[j].e.size());
        if(m > 0) r.push_back({A_SUB, i, j, i == j ? 0 : m - 1});
      }
    for(int j = 0; j < w.S; ++j)
      if(j != i && w.mod[j].alive) {
        r.push_back({A_MOVE, i, j, 0});
        if(i < j) r.push_back({O_SWAP, i, j, 0});
      }
    r.push_back({A_FIXED, i, 0, 2});
    r.push_back({A_FIXED, i, 0, 3});
    for(int n : {0, 1, 3}) r.push_back({A_INIT, i, 0, n});
    r.push_back({A_ARRAY, i, 0, 2});
    r.push_back({A_TEMP, i, 0, 2});
    r.push_back({A_CONVERT, i, 0, 2});
    for(int n : {1, 3}) r.push_back({O_SET, i, 0, n});
    for(int n : {0, 1, 2, 3, 5}) { r.push_back({O_RESIZE, i, 0, n}); r.push_back({O_RESIZE_FAST, i, 0, n}); }
    r.push_back({O_DESTROY, i, 0, 0});
    if(m.unspec) continue;
    const int n = int(m.e.size());
    for(int k = 0; k < n; ++k) r.push_back({O_PUT, i, 0, k});
    r.push_back({O_ZERO, i, 0, 0});
    r.push_back({O_FILL, i, 0, 0});
    if(n > 0) r.push_back({O_CARD, i, 0, n - 1});
    r.push_back({O_MUL, i, 0, 0});
    r.push_back({A_PLUS_SELF, i, 0, 0});
    for(int j = 0; j < w.S; ++j)
      if(w.mod[j].alive && !w.mod[j].unspec && int(w.mod[j].e.size()) == n) {
        r.push_back({O_ADD, i, j, 0});
        if(j != i) { r.push_back({O_SUBTRACT, i, j, 0}); r.push_back({O_MIN, i, j, 0}); }
      }
  }
  return r;
}

template<class E> cml::vector<E, cml::dynamic<A>> give(const cml::vector<E, cml::dynamic<A>>& v)
{
  cml::vector<E, cml::dynamic<A>> t = v;
  return t;
}

template<class E> void apply(World<E>& w, const Op& o)
{
  using vec = typename World<E>::vec;
  using opt = std::optional<E>;
  auto& O = w.obj[o.i];
  auto& M = w.mod[o.i];
  auto& mj = w.mod[o.j];
  auto lift = [&](int i, auto f) { // elementwise map of a model
    Elems<E> r;
    for(auto& x : w.mod[i].e) r.push_back(x ? opt(f(*x)) : opt());
    return r;
  };
  auto zip = [&](int i, int j, auto f) {
    Elems<E> r;
    for(size_t k = 0; k < w.mod[i].e.size(); ++k) {
      auto &x = w.mod[i].e[k], &y = w.mod[j].e[k];
      r.push_back(x && y ? opt(f(*x, *y)) : opt());
    }
    return r;
  };
  auto become = [&](Elems<E> e) { M.alive = true; M.unspec = false; M.e = std::move(e); };
  MC_TRACE(names[o.kind] << " " << o.i << "," << o.j << "," << o.a);
  mc::step();
  switch(o.kind) {
    case C_DEFAULT: O.emplace(); become({}); break;
    case C_SIZE: O.emplace(o.a); become(Elems<E>(size_t(o.a))); break;
    case C_COPY: O.emplace(static_cast<const vec&>(*w.obj[o.j])); become(mj.e); break;
    case C_MOVE: {
      O.emplace(std::move(*w.obj[o.j]));
      if(mj.unspec) { M = mj; } else become(mj.e);
      mj.unspec = true; mj.e.clear();
    } break;
    case O_STEAL_RET: O.emplace(give<E>(*w.obj[o.j])); become(mj.e); break;
    case C_ELEMS: {
      E a = w.next(), b = w.next(), c = w.next();
      if(o.a == 1) { O.emplace(vec{a}); become({a}); } // one element: braces select the list form
      else if(o.a == 2) { O.emplace(a, b); become({a, b}); }
      else { O.emplace(a, b, c); become({a, b, c}); }
    } break;
    case C_ARRAY: { E a[2] = {w.next(), w.next()}; O.emplace(a); become({a[0], a[1]}); } break;
    case C_PTR: { E a[2] = {w.next(), w.next()}; const E* p = a; O.emplace(p, o.a); become(o.a ? Elems<E>{a[0], a[1]} : Elems<E>{}); } break;
    case C_PTR2: { E a[2] = {w.next(), w.next()}; const E* p = a; O.emplace(o.a, p); become(o.a ? Elems<E>{a[0], a[1]} : Elems<E>{}); } break;
    case C_INIT: { E a = w.next(), b = w.next(), c = w.next(); O.emplace(std::initializer_list<E>{a, b, c}); become({a, b, c}); } break;
    case C_SUB: { E a = w.next(); O.emplace(*w.obj[o.j], a); auto e = mj.e; e.push_back(a); become(e); } break;
    case C_FIXED: { cml::vector<E, cml::compiled<2>> f(w.next(), w.next()); O.emplace(f); become({f[0], f[1]}); } break;
    case C_EXPR: O.emplace(*w.obj[o.j] + *w.obj[o.j]); become(lift(o.j, [](E x) { return E(x + x); })); break;
    case A_COPY: { vec& r = (*O = static_cast<const vec&>(*w.obj[o.j])); MC_CHECK(&r == &*O, "returned-reference", "copy assignment"); auto e = mj.e; become(e); } break;
    case A_MOVE: {
      vec& r = (*O = std::move(*w.obj[o.j]));
      MC_CHECK(&r == &*O, "returned-reference", "move assignment");
      if(mj.unspec) { M.unspec = true; M.e.clear(); } else become(mj.e);
      mj.unspec = true; mj.e.clear();
    } break;
    case A_FIXED:
      if(o.a == 2) { cml::vector<E, cml::compiled<2>> f(w.next(), w.next()); *O = f; become({f[0], f[1]}); }
      else { cml::vector<E, cml::compiled<3>> f(w.next(), w.next(), w.next()); *O = f; become({f[0], f[1], f[2]}); }
      break;
    case A_EXPR: *O = *w.obj[o.j] * E(2); become(lift(o.j, [](E x) { return E(x * 2); })); break;
    case A_SUB: { *O = w.obj[o.j]->subvector(o.a); const auto old = mj.e; Elems<E> e; for(int k = 0; k < int(old.size()); ++k) if(k != o.a) e.push_back(old[size_t(k)]); become(e); } break;
    case A_INIT: {
      E a = w.next(), b = w.next(), c = w.next();
      if(o.a == 0) { *O = std::initializer_list<E>{}; become({}); }
      else if(o.a == 1) { *O = std::initializer_list<E>{a}; become({a}); }
      else { *O = std::initializer_list<E>{a, b, c}; become({a, b, c}); }
    } break;
    case A_ARRAY: { E a[2] = {w.next(), w.next()}; *O = a; become({a[0], a[1]}); } break;
    case A_TEMP: { E a = w.next(), b = w.next(); *O = vec(a, b); become({a, b}); } break;
    case A_CONVERT: { cml::vector<short, cml::dynamic<>> f(short(w.next()), short(w.next())); *O = f; become({E(f[0]), E(f[1])}); } break;
    case O_SET: { E a = w.next(), b = w.next(), c = w.next(); if(o.a == 1) { O->set(a); become({a}); } else { O->set(a, b, c); become({a, b, c}); } } break;
    case O_PUT: { E a = w.next(); if(o.a & 1) O->put(o.a, a); else (*O)[o.a] = a; M.e[size_t(o.a)] = a; } break;
    case O_RESIZE: {
      O->resize(o.a);
      if(M.unspec) become(Elems<E>(size_t(o.a)));
      else M.e.resize(size_t(o.a));
    } break;
    case O_RESIZE_FAST: { // contents unspecified unless the size is unchanged
      O->resize_fast(o.a);
      if(M.unspec || int(M.e.size()) != o.a) become(Elems<E>(size_t(o.a)));
    } break;
    case O_SWAP: { using std::swap; swap(*O, *w.obj[o.j]); std::swap(M, mj); } break;
    case O_DESTROY: O.reset(); M = Model<E>(); break;
    case O_ADD: {
      if(!w.full(o.i) || !w.full(o.j)) break; *O += *w.obj[o.j]; auto e = zip(o.i, o.j, [](E x, E y) { return E(x + y); }); become(e); } break;
    case O_SUBTRACT: {
      if(!w.full(o.i) || !w.full(o.j)) break; *O -= *w.obj[o.j]; auto e = zip(o.i, o.j, [](E x, E y) { return E(x - y); }); become(e); } break;
    case O_MIN: {
      if(!w.full(o.i) || !w.full(o.j)) break;
      O->minimize(*w.obj[o.j]);
      auto e = zip(o.i, o.j, [](E x, E y) { return y < x ? y : x; });
      become(e);
    } break;
    case O_MUL: { if(!w.full(o.i)) break; *O *= E(3); become(lift(o.i, [](E x) { return E(x * 3); })); } break;
    case O_ZERO: O->zero(); become(Elems<E>(M.e.size(), opt(E(0)))); break;
    case O_FILL: { E a = w.next(); O->fill(a); become(Elems<E>(M.e.size(), opt(a))); } break;
    case O_CARD: { O->cardinal(o.a); Elems<E> e(M.e.size(), opt(E(0))); e[size_t(o.a)] = E(1); become(e); } break;
    case A_PLUS_SELF: { if(!w.full(o.i)) break; *O = *O + *O; become(lift(o.i, [](E x) { return E(x + x); })); } break;
  }
}

template<class E> void run(int slots, int depth, int shard, int shards)
{
  World<E> w(slots);
  for(int d = 0; d < depth; ++d) {
    OpList en = enabled(w);
    if(d == 1 && shards > 1) { // shard on the second operation
      OpList s;
      for(size_t k = 0; k < en.size(); ++k)
        if(int(k) % shards == shard) s.push_back(en[k]);
      en = s;
    }
    const Op o = en[size_t(mc::choose(int(en.size())))];
    apply(w, o);
    w.check(names[o.kind]);
  }
  w.finish();
}

template<class E> void reg(const char* t, int slots, int depth)
{
  const int n = 12;
  for(int s = 0; s < n; ++s)
    mc::add(std::string("history-") + t + "-slots" + std::to_string(slots) + "-depth" + std::to_string(depth) + "-shard" + (s < 10 ? "0" : "") + std::to_string(s),
      [=] { run<E>(slots, depth, s, n); });
}

struct R
{
  R()
  {
#ifdef MC_THOROUGH
    reg<double>("double", 2, 5);
    reg<int>("int", 3, 4);
#else
    reg<double>("double", 2, 4);
    reg<int>("int", 3, 3);
#endif
    // Argument validation: negative sizes are rejected and change nothing.
    mc::add("negative-size", [] {
      h::alloc_state().reset();
      using vec = cml::vector<double, cml::dynamic<A>>;
      {
        const int n = mc::choose(4), how = mc::choose(4), bad = -1 - mc::choose(3);
        vec v;
        v.resize(n);
        for(int i = 0; i < n; ++i) v[i] = i + 1;
        mc::step();
        bool threw = false;
        try {
          if(how == 0) v.resize(bad);
          else if(how == 1) v.resize_fast(bad);
          else if(how == 2) vec u(bad);
          else { const double* p = v.data(); vec u(p, bad); }
        } catch(const std::invalid_argument&) { threw = true; }
        MC_CHECK(threw, "negative size accepted", "size " << bad << " form " << how);
        MC_CHECK(v.size() == n, "size", "changed by rejected resize");
        for(int i = 0; i < n; ++i) MC_CHECK(v[i] == i + 1, "element", "changed by rejected resize");
      }
      MC_CHECK(h::alloc_state().live.empty() && h::alloc_state().bad.empty(), "leak", "after rejected size");
    });
  }
} r;

} // namespace
