// C05: every allocation of every operation fails in turn.
// operator new is replaced, so that allocations through any allocator the
// library picks (also for its temporaries) are counted, guarded and failed.
#pragma once
#include "mc.h"
#include "all.h"
#include <cstddef>

namespace oom {
struct State
{
  bool armed = false;
  long seen = 0, fail_at = -1, fail_at2 = -1, live = 0;
  bool failed = false;
  const char* bad = nullptr;
};
extern State st;

/// Allocations made inside are counted and failed.
struct Arm
{
  Arm(long k, long k2) { st.seen = 0; st.failed = false; st.fail_at = k; st.fail_at2 = k2; st.armed = true; }
  ~Arm() { st.armed = false; st.fail_at = st.fail_at2 = -1; }
};

#ifdef MC_THOROUGH
constexpr int K = 9;
#else
constexpr int K = 7;
#endif

using V = cml::vectord;
template<class B, class L> using MT = cml::matrix<double, cml::dynamic<>, B, L>;
using M = MT<cml::col_basis, cml::row_major>;

inline V vec(int n, int base) { V v(n); for(int i = 0; i < n; ++i) v[i] = base + i; return v; }
template<class A = M> A mat(int r, int c, int base)
{
  A m(r, c);
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = base + 3 * i + j + (i == j ? 5 : 0);
  return m;
}
inline bool is(const V& v, int n, int base)
{
  if(v.size() != n) return false;
  for(int i = 0; i < n; ++i) if(v[i] != base + i) return false;
  return true;
}
template<class A> bool is(const A& m, int r, int c, int base)
{
  if(m.rows() != r || m.cols() != c) return false;
  for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) if(m(i, j) != base + 3 * i + j + (i == j ? 5 : 0)) return false;
  return true;
}

/// Use the written object as a fresh one.
inline void reuse(const char* op, V& v, int how, int n)
{
  // Its elements must still be readable.
  volatile double sum = 0;
  for(int i = 0; i < v.size(); ++i) sum = sum + v[i];
  (void) sum;
  switch(how) {
    case 0: return;
    case 1:
      v.resize(n);
      MC_CHECK(v.size() == n, std::string(op) + ":reuse", "resized to " << n << ", is " << v.size());
      for(int i = 0; i < n; ++i) v[i] = 40 + i;
      MC_CHECK(is(v, n, 40), std::string(op) + ":reuse", "elements written after a resize");
      return;
    case 2: { const V x = vec(n, 60); v = x; MC_CHECK(is(v, n, 60) && is(x, n, 60), std::string(op) + ":reuse", "assigned"); return; }
    case 3: { const V x = vec(n, 60); v = x + x; MC_CHECK(v.size() == n && (n == 0 || v[n - 1] == 2 * (60 + n - 1)), std::string(op) + ":reuse", "assigned an expression"); return; }
    case 4: { v = vec(n, 70); MC_CHECK(is(v, n, 70), std::string(op) + ":reuse", "move assigned"); return; }
  }
}
template<class A> void reuse(const char* op, A& m, int how, int n)
{
  volatile double sum = 0;
  for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) sum = sum + m(i, j);
  (void) sum;
  switch(how) {
    case 0: return;
    case 1:
      m.resize(n, 2);
      MC_CHECK(m.rows() == n && m.cols() == 2, std::string(op) + ":reuse", "resized to " << n << "x2, is " << m.rows() << "x" << m.cols());
      for(int i = 0; i < n; ++i) for(int j = 0; j < 2; ++j) m(i, j) = 40 + 3 * i + j + (i == j ? 5 : 0);
      MC_CHECK(is(m, n, 2, 40), std::string(op) + ":reuse", "elements written after a resize");
      return;
    case 2: { const A x = mat<A>(n, 2, 60); m = x; MC_CHECK(is(m, n, 2, 60) && is(x, n, 2, 60), std::string(op) + ":reuse", "assigned"); return; }
    case 3: { const A x = mat<A>(n, 2, 60); m = x + x; MC_CHECK(m.rows() == n && m.cols() == 2 && (n == 0 || m(0, 1) == 122), std::string(op) + ":reuse", "assigned an expression"); return; }
    case 4: { m = mat<A>(n, 2, 70); MC_CHECK(is(m, n, 2, 70), std::string(op) + ":reuse", "move assigned"); return; }
  }
}

/// What an execution ends with.
inline void settle(const char* op, long live0)
{
  MC_CHECK(st.bad == nullptr, std::string(op) + ":release", op << ": " << st.bad);
  MC_CHECK(st.live == live0, std::string(op) + ":leak", op << ": " << (st.live - live0) << " allocations are not released");
}

// The run of one operation with failures at k (and, if k2 >= 0, also k2).
// f: the operation; ok: checks its result when nothing failed; same: the operands
// it does not write; after: uses the written object.
template<class F, class OK, class S, class A> void attempt(const char* op, int k, int k2, F f, OK ok, S same, A after)
{
  mc::step();
  int threw = 0;
  {
    try { Arm arm(k, k2 < 0 ? -1 : k2); f(); }
    catch(const std::bad_alloc&) { threw = 1; }
    catch(...) { threw = 2; }
  }
  const bool failed = st.failed;
  MC_CHECK(!(failed && threw == 0), std::string(op) + ":swallowed", op << ": the failed allocation raised nothing");
  MC_CHECK(!(failed && threw == 2), std::string(op) + ":replaced", op << ": the failed allocation raised another exception");
  MC_CHECK(!(!failed && threw), std::string(op) + ":spurious", op << ": raised an exception although no allocation failed");
  MC_CHECK(same(), std::string(op) + ":operand-changed", op << ": an operand that it does not write changed (failed=" << failed << ")");
  if(!failed) MC_CHECK(ok(), std::string(op) + ":result", op << ": wrong result without a failure");
  after(failed);
  mc::state(mc::Hash()(k)(k2)(failed)(int(mc::hash_str(op) & 0xffff)));
}
} // namespace oom
