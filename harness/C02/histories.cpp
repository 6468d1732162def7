// C02: every operation history over dynamic matrices against a plain grid model.
#include "alloc.h"
#include "list.h"
#include <cml/matrix.h>
#include <cml/vector.h>

namespace {

using A = h::CountAlloc<void*>;
using h::List;
template<class E> using Flat = List<std::optional<E>, 40>;

// Elements in storage order, each known or not.
template<class E> struct Model
{
  bool alive = false, unspec = false;
  int r = 0, c = 0;
  Flat<E> e;
};

struct Op { int kind, i, j, a, b; };
using OpList = List<Op, 400>;

enum {
  C_DEFAULT, C_SIZE, C_COPY, C_MOVE, C_ELEMS, C_ARRAY, C_PTR, C_PTR2, C_2D, C_EXPR, C_OTHER, C_FIXED,
  A_COPY, A_MOVE, A_OTHER, A_EXPR, A_INIT, A_ARRAY, A_2D, A_FIXED, A_TEMP, O_PUT, O_SETROW, O_SETCOL, O_BASIS,
  O_RESIZE, O_RESIZE_FAST, O_SWAP, O_DESTROY, O_ADD, O_SUBTRACT, O_MUL, O_ZERO, O_IDENT, O_FILL, O_TRANSPOSE,
  A_TRANSPOSED, C_TRANSPOSED, A_SELF_SUM, A_PRODUCT, O_STEAL_RET
};
const char* names[] = {"default-construct", "construct(rows,cols)", "copy-construct", "move-construct",
  "construct(rows,cols,elements)", "construct(rows,cols,array)", "construct(rows,cols,ptr)", "construct(ptr,rows,cols)",
  "construct(2D array)", "construct(expression)", "construct(other layout)", "construct(fixed)", "copy-assign",
  "move-assign", "assign other layout", "assign expression", "assign init-list", "assign array", "assign 2D array",
  "assign fixed", "assign temporary", "put", "set_row", "set_col", "set_basis_element", "resize", "resize_fast", "swap",
  "destroy", "+=", "-=", "*=", "zero", "identity", "fill", "transpose in place", "assign transpose", "construct(transpose)",
  "assign self-sum", "assign product", "return by value"};

template<class E, class BO, class L> struct World
{
  using mat = cml::matrix<E, cml::dynamic<A>, BO, L>;
  using OL = std::conditional_t<std::is_same<L, cml::row_major>::value, cml::col_major, cml::row_major>;
  using other = cml::matrix<E, cml::dynamic<A>, BO, OL>;
  using M = Model<E>;
  static constexpr bool rowmaj = std::is_same<L, cml::row_major>::value;
  static constexpr bool rowbasis = std::is_same<BO, cml::row_basis>::value;
  static constexpr int MAXS = 3;
  int S;
  std::optional<mat> obj[MAXS];
  M mod[MAXS];
  int fresh = 1;
  explicit World(int s) : S(s) { h::alloc_state().reset(); }
  E next() { return E(fresh++); }
  static size_t at(const M& m, int i, int j) { return size_t(rowmaj ? i * m.c + j : j * m.r + i); }
  bool full(int j) const
  {
    if(!mod[j].alive || mod[j].unspec) return false;
    for(auto& x : mod[j].e)
      if(!x) return false;
    return true;
  }
  void check(const char* op)
  {
    auto& as = h::alloc_state();
    MC_CHECK(as.bad.empty(), "allocator", op << ": " << as.bad);
    mc::Hash H;
    for(int s = 0; s < S; ++s) {
      const M& m = mod[s];
      if(!m.alive) { H(99); continue; }
      if(m.unspec) { H(98); continue; }
      const mat& v = *obj[s];
      MC_CHECK(v.rows() == m.r && v.cols() == m.c, "size",
        op << ": object " << s << " is " << v.rows() << "x" << v.cols() << ", expected " << m.r << "x" << m.c);
      MC_CHECK(v.size() == cml::matrix_size(m.r, m.c) && v.basis_count() == (rowbasis ? m.r : m.c)
          && v.basis_size() == (rowbasis ? m.c : m.r), "size-forms", op << ": size queries of object " << s);
      const int n = m.r * m.c;
      MC_CHECK(v.end() - v.begin() == n && v.begin() == v.data(), "range", op << ": begin/end/data of object " << s);
      H(m.r)(m.c);
      for(int i = 0; i < m.r; ++i)
        for(int j = 0; j < m.c; ++j) {
          const auto& x = m.e[at(m, i, j)];
          if(!x) { H(97); continue; }
          const E w = *x;
          MC_CHECK(v(i, j) == w, "element", op << ": object " << s << "(" << i << "," << j << ") is " << v(i, j) << ", expected " << w);
          MC_CHECK(v.get(i, j) == w && (*obj[s])(i, j) == w && obj[s]->get(i, j) == w
              && v.data()[at(m, i, j)] == w && (rowbasis ? v.basis_element(i, j) : v.basis_element(j, i)) == w,
            "access-forms", op << ": access forms of object " << s << "(" << i << "," << j << ") disagree");
          H(int(w));
        }
      for(int t = 0; t < s; ++t)
        if(mod[t].alive && obj[t]->rows() * obj[t]->cols() > 0 && n > 0) {
          const E *a = v.data(), *b = obj[t]->data();
          MC_CHECK(a + n <= b || b + obj[t]->rows() * obj[t]->cols() <= a, "aliasing", op << ": objects " << s << " and " << t << " share storage");
        }
    }
    mc::state(H);
  }
  void finish()
  {
    for(int i = 0; i < S; ++i) obj[i].reset();
    auto& as = h::alloc_state();
    MC_CHECK(as.bad.empty(), "allocator", "at destruction: " << as.bad);
    MC_CHECK(as.live.empty(), "leak", as.live.size() << " allocation(s) never released");
  }

  OpList enabled() const
  {
    OpList r;
    for(int i = 0; i < S; ++i) {
      if(mod[i].alive) continue;
      r.push_back({C_DEFAULT, i, 0, 0, 0});
      r.push_back({C_SIZE, i, 0, 0, 0});
      r.push_back({C_SIZE, i, 0, 2, 3});
      r.push_back({C_SIZE, i, 0, 0, 2});
      r.push_back({C_ELEMS, i, 0, 2, 3});
      r.push_back({C_ELEMS, i, 0, 1, 1});
      r.push_back({C_ARRAY, i, 0, 2, 1});
      r.push_back({C_ARRAY, i, 0, 1, 2});
      r.push_back({C_PTR, i, 0, 2, 2});
      r.push_back({C_PTR2, i, 0, 2, 3});
      r.push_back({C_2D, i, 0, 2, 3});
      r.push_back({C_2D, i, 0, 2, 2});
      r.push_back({C_FIXED, i, 0, 2, 2});
      for(int j = 0; j < S; ++j)
        if(j != i && mod[j].alive) {
          if(!mod[j].unspec) {
            r.push_back({C_COPY, i, j, 0, 0});
            r.push_back({C_EXPR, i, j, 0, 0});
            r.push_back({C_OTHER, i, j, 0, 0});
            r.push_back({C_TRANSPOSED, i, j, 0, 0});
            r.push_back({O_STEAL_RET, i, j, 0, 0});
          }
          r.push_back({C_MOVE, i, j, 0, 0});
        }
      break;
    }
    for(int i = 0; i < S; ++i) {
      const M& m = mod[i];
      if(!m.alive) continue;
      for(int j = 0; j < S; ++j)
        if(mod[j].alive && !mod[j].unspec) {
          r.push_back({A_COPY, i, j, 0, 0});
          if(j != i) {
            r.push_back({A_EXPR, i, j, 0, 0});
            r.push_back({A_OTHER, i, j, 0, 0});
            r.push_back({A_TRANSPOSED, i, j, 0, 0});
          }
        }
      for(int j = 0; j < S; ++j)
        if(j != i && mod[j].alive) {
          r.push_back({A_MOVE, i, j, 0, 0});
          if(i < j) r.push_back({O_SWAP, i, j, 0, 0});
        }
      r.push_back({A_2D, i, 0, 2, 3});
      r.push_back({A_2D, i, 0, 3, 2});
      r.push_back({A_FIXED, i, 0, 2, 2});
      r.push_back({A_TEMP, i, 0, 1, 2});
      static const int sh[][2] = {{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {0, 2}};
      for(auto& q : sh) {
        r.push_back({O_RESIZE, i, 0, q[0], q[1]});
        if(q[0] + q[1] != 3) r.push_back({O_RESIZE_FAST, i, 0, q[0], q[1]});
      }
      r.push_back({O_DESTROY, i, 0, 0, 0});
      if(m.unspec) continue;
      const int n = m.r * m.c;
      if(n == 2) r.push_back({A_ARRAY, i, 0, 0, 0});
      if(n == 4 || n == 1) r.push_back({A_INIT, i, 0, 0, 0});
      if(n > 0) {
        r.push_back({O_PUT, i, 0, m.r - 1, 0});
        r.push_back({O_PUT, i, 0, 0, m.c - 1});
        r.push_back({O_SETROW, i, 0, m.r - 1, 0});
        r.push_back({O_SETCOL, i, 0, 0, m.c - 1});
        r.push_back({O_BASIS, i, 0, 0, (rowbasis ? m.c : m.r) - 1});
        r.push_back({O_ZERO, i, 0, 0, 0});
        r.push_back({O_FILL, i, 0, 0, 0});
        r.push_back({O_IDENT, i, 0, 0, 0});
      }
      if(full(i)) {
        r.push_back({O_MUL, i, 0, 0, 0});
        r.push_back({O_TRANSPOSE, i, 0, 0, 0});
        r.push_back({A_SELF_SUM, i, 0, 0, 0});
        if(m.r == m.c && n > 0) r.push_back({A_PRODUCT, i, 0, 0, 0});
        for(int j = 0; j < S; ++j)
          if(full(j) && mod[j].r == m.r && mod[j].c == m.c) {
            r.push_back({O_ADD, i, j, 0, 0});
            if(j != i) r.push_back({O_SUBTRACT, i, j, 0, 0});
          }
      }
    }
    return r;
  }

  static mat give(const mat& m) { mat t = m; return t; }

  void apply(const Op& o)
  {
    auto& O = obj[o.i];
    M& m = mod[o.i];
    M& mj = mod[o.j];
    MC_TRACE(names[o.kind] << " " << o.i << "," << o.j << "," << o.a << "," << o.b);
    mc::step();
    // A new model of shape r x c whose element (i,j) is f(i,j).
    auto build = [&](int r, int c, auto f) {
      M t;
      t.alive = true; t.r = r; t.c = c;
      t.e.resize(size_t(r * c));
      for(int i = 0; i < r; ++i)
        for(int j = 0; j < c; ++j) t.e[at(t, i, j)] = f(i, j);
      return t;
    };
    auto known = [&](int r, int c, const E* p) { return build(r, c, [=](int i, int j) { return std::optional<E>(p[i * c + j]); }); };
    auto blank = [&](int r, int c) { return build(r, c, [](int, int) { return std::optional<E>(); }); };
    auto lift = [&](const M& s, auto f) {
      M t = s;
      for(auto& x : t.e) if(x) x = f(*x);
      return t;
    };
    auto transposed = [&](const M& s) { return build(s.c, s.r, [&](int i, int j) { return s.e[at(s, j, i)]; }); };
    E v[9];
    auto fill9 = [&] { for(auto& x : v) x = next(); };
    switch(o.kind) {
      case C_DEFAULT: O.emplace(); m = blank(0, 0); break;
      case C_SIZE: O.emplace(o.a, o.b); m = blank(o.a, o.b); break;
      case C_COPY: O.emplace(static_cast<const mat&>(*obj[o.j])); m = mj; break;
      case C_MOVE: { M t = mj; O.emplace(std::move(*obj[o.j])); m = t; mj.unspec = true; } break;
      case O_STEAL_RET: O.emplace(give(*obj[o.j])); m = mj; break;
      case C_ELEMS: fill9(); if(o.a == 1) O.emplace(1, 1, v[0]); else O.emplace(2, 3, v[0], v[1], v[2], v[3], v[4], v[5]); m = known(o.a, o.b, v); break;
      case C_ARRAY: { fill9(); E a[2] = {v[0], v[1]}; O.emplace(o.a, o.b, a); m = known(o.a, o.b, v); } break;
      case C_PTR: { fill9(); const E* p = v; O.emplace(o.a, o.b, p); m = known(o.a, o.b, v); } break;
      case C_PTR2: { fill9(); const E* p = v; O.emplace(p, o.a, o.b); m = known(o.a, o.b, v); } break;
      case C_2D: {
        fill9();
        if(o.b == 3) { E a[2][3] = {{v[0], v[1], v[2]}, {v[3], v[4], v[5]}}; O.emplace(a); }
        else { E a[2][2] = {{v[0], v[1]}, {v[2], v[3]}}; O.emplace(a); }
        m = known(o.a, o.b, v);
      } break;
      case C_FIXED: { fill9(); cml::matrix<E, cml::compiled<2, 2>, BO, L> f(v[0], v[1], v[2], v[3]); O.emplace(f); m = known(2, 2, v); } break;
      case C_EXPR: O.emplace(*obj[o.j] + *obj[o.j]); m = lift(mj, [](E x) { return E(x + x); }); break;
      case C_OTHER: { other t(*obj[o.j]); O.emplace(t); m = mj; } break;
      case C_TRANSPOSED: O.emplace(cml::transpose(*obj[o.j])); m = transposed(mj); break;
      case A_COPY: { mat& r = (*O = static_cast<const mat&>(*obj[o.j])); MC_CHECK(&r == &*O, "returned-reference", "copy assignment"); M t = mj; m = t; } break;
      case A_MOVE: { M t = mj; mat& r = (*O = std::move(*obj[o.j])); MC_CHECK(&r == &*O, "returned-reference", "move assignment"); m = t; mj.unspec = true; } break;
      case A_OTHER: { other t = *obj[o.j]; *O = t; m = mj; } break;
      case A_EXPR: *O = *obj[o.j] * E(2); m = lift(mj, [](E x) { return E(x * 2); }); break;
      case A_TRANSPOSED: *O = cml::transpose(*obj[o.j]); m = transposed(mj); break;
      case A_INIT: fill9(); if(m.r * m.c == 4) *O = std::initializer_list<E>{v[0], v[1], v[2], v[3]}; else *O = std::initializer_list<E>{v[0]}; m = known(m.r, m.c, v); break;
      case A_ARRAY: { fill9(); E a[2] = {v[0], v[1]}; *O = a; m = known(m.r, m.c, v); } break;
      case A_2D: {
        fill9();
        if(o.a == 2) { E a[2][3] = {{v[0], v[1], v[2]}, {v[3], v[4], v[5]}}; *O = a; }
        else { E a[3][2] = {{v[0], v[1]}, {v[2], v[3]}, {v[4], v[5]}}; *O = a; }
        m = known(o.a, o.b, v);
      } break;
      case A_FIXED: { fill9(); cml::matrix<E, cml::compiled<2, 2>, BO, L> f(v[0], v[1], v[2], v[3]); *O = f; m = known(2, 2, v); } break;
      case A_TEMP: fill9(); *O = mat(1, 2, v[0], v[1]); m = known(1, 2, v); break;
      case O_PUT: { E x = next(); if((o.a + o.b) & 1) O->put(o.a, o.b, x); else (*O)(o.a, o.b) = x; m.e[at(m, o.a, o.b)] = x; } break;
      case O_SETROW: { cml::vector<E, cml::dynamic<A>> x(m.c); for(int k = 0; k < m.c; ++k) { x[k] = next(); m.e[at(m, o.a, k)] = x[k]; } O->set_row(o.a, x); } break;
      case O_SETCOL: { cml::vector<E, cml::dynamic<A>> x(m.r); for(int k = 0; k < m.r; ++k) { x[k] = next(); m.e[at(m, k, o.b)] = x[k]; } O->set_col(o.b, x); } break;
      case O_BASIS: { E x = next(); O->set_basis_element(o.a, o.b, x); m.e[rowbasis ? at(m, o.a, o.b) : at(m, o.b, o.a)] = x; } break;
      case O_RESIZE: {
        O->resize(o.a, o.b);
        if(m.unspec) { m = blank(o.a, o.b); break; }
        m.e.resize(size_t(o.a * o.b)); // common prefix in storage order
        m.r = o.a; m.c = o.b;
      } break;
      case O_RESIZE_FAST: {
        O->resize_fast(o.a, o.b);
        if(m.unspec || m.r != o.a || m.c != o.b) m = blank(o.a, o.b);
      } break;
      case O_SWAP: { using std::swap; swap(*O, *obj[o.j]); std::swap(m, mj); } break;
      case O_DESTROY: O.reset(); m = M(); break;
      case O_ADD: { M t = m; for(size_t k = 0; k < t.e.size(); ++k) t.e[k] = E(*m.e[k] + *mj.e[k]); *O += *obj[o.j]; m = t; } break;
      case O_SUBTRACT: { M t = m; for(size_t k = 0; k < t.e.size(); ++k) t.e[k] = E(*m.e[k] - *mj.e[k]); *O -= *obj[o.j]; m = t; } break;
      case O_MUL: *O *= E(3); m = lift(m, [](E x) { return E(x * 3); }); break;
      case O_ZERO: O->zero(); m = build(m.r, m.c, [](int, int) { return std::optional<E>(E(0)); }); break;
      case O_IDENT: O->identity(); m = build(m.r, m.c, [](int i, int j) { return std::optional<E>(E(i == j)); }); break;
      case O_FILL: { E x = next(); O->fill(x); m = build(m.r, m.c, [=](int, int) { return std::optional<E>(x); }); } break;
      case O_TRANSPOSE: O->transpose(); m = transposed(M(m)); break;
      case A_SELF_SUM: *O = *O + *O; m = lift(m, [](E x) { return E(x + x); }); break;
      case A_PRODUCT: {
        M t = build(m.r, m.c, [&](int i, int j) { E s = 0; for(int k = 0; k < m.c; ++k) s += *m.e[at(m, i, k)] * *m.e[at(m, k, j)]; return std::optional<E>(s); });
        *O = *O * *O;
        m = t;
      } break;
    }
  }
};

template<class W> void run(int slots, int depth, int shard, int shards)
{
  W w(slots);
  for(int d = 0; d < depth; ++d) {
    OpList en = w.enabled();
    if(d == 1) {
      OpList s;
      for(size_t k = 0; k < en.size(); ++k)
        if(int(k) % shards == shard) s.push_back(en[k]);
      en = s;
    }
    const Op o = en[size_t(mc::choose(int(en.size())))];
    w.apply(o);
    w.check(names[o.kind]);
  }
  w.finish();
}

template<class E, class BO, class L> void reg(const char* t, int slots, int depth)
{
  const int n = 8;
  for(int s = 0; s < n; ++s)
    mc::add(std::string("history-") + t + "-slots" + std::to_string(slots) + "-depth" + std::to_string(depth) + "-shard" + std::to_string(s),
      [=] { run<World<E, BO, L>>(slots, depth, s, n); });
}

struct R
{
  R()
  {
#ifdef MC_THOROUGH
    const int d = 4;
#else
    const int d = 4;
#endif
    reg<double, cml::row_basis, cml::row_major>("double-rowbasis-rowmajor", 2, d);
    reg<double, cml::col_basis, cml::col_major>("double-colbasis-colmajor", 2, d);
    reg<int, cml::row_basis, cml::col_major>("int-rowbasis-colmajor", 3, 3);
    reg<double, cml::col_basis, cml::row_major>("double-colbasis-rowmajor", 3, 3);
    mc::add("negative-size", [] {
      h::alloc_state().reset();
      using mat = cml::matrix<double, cml::dynamic<A>, cml::row_basis, cml::row_major>;
      {
        const int r = mc::choose(3), c = mc::choose(3), how = mc::choose(4), which = mc::choose(3);
        const int br = which != 1 ? -1 : 2, bc = which != 0 ? -2 : 2;
        mat m(r, c);
        m.fill(7);
        mc::step();
        bool threw = false;
        try {
          if(how == 0) m.resize(br, bc);
          else if(how == 1) m.resize_fast(br, bc);
          else if(how == 2) mat u(br, bc);
          else { const double* p = m.data(); mat u(p, br, bc); }
        } catch(const std::invalid_argument&) { threw = true; }
        MC_CHECK(threw, "negative size accepted", br << "x" << bc << " form " << how);
        MC_CHECK(m.rows() == r && m.cols() == c, "size", "changed by rejected resize");
        for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) MC_CHECK(m(i, j) == 7, "element", "changed by rejected resize");
      }
      MC_CHECK(h::alloc_state().live.empty() && h::alloc_state().bad.empty(), "leak", "after rejected size");
    });
  }
} r;

} // namespace
