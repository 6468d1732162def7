#include "oom.h"
#include <cstdlib>
#include <new>

namespace oom { State st; }

namespace {
constexpr std::size_t HEAD = 32, MAGIC = 0x5afeb10c;
void* get(std::size_t n)
{
  using oom::st;
  if(st.armed) {
    const long k = st.seen++;
    if(k == st.fail_at || k == st.fail_at2) { st.failed = true; throw std::bad_alloc(); }
  }
  char* p = static_cast<char*>(std::malloc(n + HEAD));
  if(!p) throw std::bad_alloc();
  reinterpret_cast<std::size_t*>(p)[0] = MAGIC;
  reinterpret_cast<std::size_t*>(p)[1] = n;
  ++st.live;
  return p + HEAD;
}
void put(void* q, std::size_t n, bool sized)
{
  using oom::st;
  if(!q) return;
  char* p = static_cast<char*>(q) - HEAD;
  std::size_t* h = reinterpret_cast<std::size_t*>(p);
  if(h[0] != MAGIC) { st.bad = "released a block that is not live"; return; }
  if(sized && h[1] != n) st.bad = "released with a size different from the requested one";
  h[0] = 0;
  --st.live;
  std::free(p);
}
} // namespace

void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p, 0, false); }
void operator delete[](void* p) noexcept { put(p, 0, false); }
void operator delete(void* p, std::size_t n) noexcept { put(p, n, true); }
void operator delete[](void* p, std::size_t n) noexcept { put(p, n, true); }

using namespace oom;

namespace {
// Vectors: a is written, b and c are operands.
void vectors()
{
  const int sel = mc::choose(34);
  const int n = mc::choose(4), p = mc::choose(4);
  const int k = mc::choose(K);
  const int k2 = mc::thorough() && k + 1 < K ? k + mc::choose(3) : -1;
  int at = 0;
  const long live0 = st.live;
  const char* name = "";
  {
    V a = vec(p, 5);
    const V b = vec(n, 10), c = vec(n, 20);
    V d = vec(n, 30);
    const double arr[3] = {1, 2, 3};
    auto same = [&] { return is(b, n, 10) && is(c, n, 20); };
    auto go = [&](const char* op, auto f, auto ok) {
      if(at++ != sel) return;
      name = op;
      attempt(op, k, k2, f, ok, same, [&](bool) { const int how = mc::choose(5); reuse(op, a, how, how ? mc::choose(4) : 0); });
    };
    auto ctor = [&](const char* op, auto f) {
      if(at++ != sel) return;
      name = op;
      attempt(op, k, k2, f, [] { return true; }, [&] { return same() && is(a, p, 5) && is(d, n, 30); }, [](bool) {});
    };
    auto chk = [&](bool x) { MC_CHECK(x, "construction:value", "a constructed vector has the wrong elements"); };
    ctor("V(n)", [&] { V x(n); chk(x.size() == n); });
    ctor("V(const V&)", [&] { V x(b); chk(is(x, n, 10)); });
    ctor("V(b+c)", [&] { V x(b + c); chk(x.size() == n && (n == 0 || x[0] == 30)); });
    ctor("V(array)", [&] { V x(arr); chk(is(x, 3, 1)); });
    ctor("V(init list)", [&] { V x{1., 2., 3.}; chk(is(x, 3, 1)); });
    ctor("V(ptr,n)", [&] { const double* ap = arr; V x(ap, 2); chk(is(x, 2, 1)); });
    ctor("V(vectori)", [&] { cml::vectori t(3); t[0] = 1; t[1] = 2; t[2] = 3; V x(t); chk(is(x, 3, 1)); });
    ctor("V(v2,e)", [&] { V x(cml::vector2d(1, 2), 3.); chk(is(x, 3, 1)); });
    ctor("V(b,e)", [&] { V x(b, 10. + n); chk(is(x, n + 1, 10)); });
    ctor("V(e,e,e)", [&] { V x(1., 2., 3.); chk(is(x, 3, 1)); });
    ctor("two constructions", [&] { V x(b); V y(x + c); chk(is(x, n, 10) && y.size() == n); });
    ctor("subvector", [&] { if(n > 1) { V x(b.subvector(0)); chk(is(x, n - 1, 11)); } });
    ctor("normalize(b)", [&] { if(n) { auto x = cml::normalize(b); chk(x.size() == n); } });
    ctor("hadamard", [&] { auto x = cml::hadamard(b, c); chk(x.size() == n); });
    ctor("cross", [&] { if(n == 3) { V x = cml::cross(b, c); chk(x.size() == 3); } });
    ctor("outer", [&] { auto x = cml::outer(b, c); M y(x); chk(y.rows() == n && y.cols() == n); });
    ctor("project_to_hplane", [&] { if(n) { auto x = cml::project_to_hplane(b, c); chk(x.size() == n); } });
    ctor("rotate_vector", [&] { if(n == 3) { auto x = cml::rotate_vector(b, c, 1.); chk(x.size() == 3); } });
    ctor("triple_product", [&] { if(n == 3) { V x(b + c); volatile double t = cml::triple_product(b, c, x); (void) t; } });
    go("a=b", [&] { a = b; }, [&] { return is(a, n, 10); });
    go("a=move(d)", [&] { a = std::move(d); }, [&] { return is(a, n, 30); });
    go("a=b+c", [&] { a = b + c; }, [&] { return a.size() == n && (n == 0 || a[n - 1] == 30 + 2 * (n - 1)); });
    go("a=array", [&] { a = arr; }, [&] { return is(a, 3, 1); });
    go("a={..}", [&] { a = {1., 2., 3.}; }, [&] { return is(a, 3, 1); });
    go("a.resize(n)", [&] { a.resize(n); }, [&] { return a.size() == n && (n == 0 || p == 0 || a[0] == 5); });
    go("a.resize_fast(n)", [&] { a.resize_fast(n); }, [&] { return a.size() == n; });
    go("a.set(e,e)", [&] { a.set(10., 11.); }, [&] { return is(a, 2, 10); });
    go("a=cross", [&] { if(n == 3) a = cml::cross(b, c); }, [&] { return n != 3 || a.size() == 3; });
    go("a=normalize(b+c)", [&] { if(n) a = cml::normalize(b + c); }, [&] { return n == 0 || a.size() == n; });
    go("a=b then a=a+c", [&] { a = b; a = a + c; }, [&] { return a.size() == n && (n == 0 || a[0] == 30); });
    go("std::swap(a,copy)", [&] { V t(b); std::swap(a, t); }, [&] { return is(a, n, 10); });
    go("a=rows of a product", [&] { M m(2, n); m.zero(); if(n) a = m * b; }, [&] { return n == 0 || a.size() == 2; });
    go("a=fixed", [&] { a = cml::vector3d(1, 2, 3); }, [&] { return is(a, 3, 1); });
    go("a+=b resized", [&] { a.resize(n); for(int i = 0; i < n; ++i) a[i] = 0; a += b; }, [&] { return is(a, n, 10); });
  }
  settle(name, live0);
}

template<class A> void matrices()
{
  const int sel = mc::choose(38);
  const int shape = mc::choose(5), pshape = mc::choose(4), k = mc::choose(K);
  const int k2 = mc::thorough() && k + 1 < K ? k + mc::choose(3) : -1;
  static const int R[] = {0, 1, 2, 2, 3}, C[] = {0, 2, 2, 3, 3};
  const int r = R[shape], c = C[shape], pr = R[pshape], pc = C[pshape];
  int at = 0;
  const long live0 = st.live;
  const char* name = "";
  {
    A a = mat<A>(pr, pc, 5);
    const A b = mat<A>(r, c, 10), d = mat<A>(r, c, 20), sq = mat<A>(r, r, 3);
    A e = mat<A>(r, c, 30);
    const V v = vec(c, 10), w = vec(r, 40);
    const double arr[2][3] = {{1, 2, 3}, {4, 5, 6}};
    auto same = [&] { return is(b, r, c, 10) && is(d, r, c, 20) && is(sq, r, r, 3) && is(v, c, 10) && is(w, r, 40); };
    auto go = [&](const char* op, auto f, auto ok) {
      if(at++ != sel) return;
      name = op;
      attempt(op, k, k2, f, ok, same, [&](bool) { const int how = mc::choose(5); reuse(op, a, how, how ? mc::choose(3) : 0); });
    };
    auto ctor = [&](const char* op, auto f) {
      if(at++ != sel) return;
      name = op;
      attempt(op, k, k2, f, [] { return true; }, [&] { return same() && is(a, pr, pc, 5) && is(e, r, c, 30); }, [](bool) {});
    };
    auto chk = [&](bool x) { MC_CHECK(x, "construction:value", "a constructed matrix has the wrong shape or elements"); };
    const double pivot = 1; (void) pivot;
    ctor("M(r,c)", [&] { A x(r, c); chk(x.rows() == r && x.cols() == c); });
    ctor("M(const M&)", [&] { A x(b); chk(is(x, r, c, 10)); });
    ctor("M(b+d)", [&] { A x(b + d); chk(x.rows() == r && x.cols() == c); });
    ctor("M(array)", [&] { A x(arr); chk(x.rows() == 2 && x(1, 2) == 6); });
    ctor("M(r,c,ptr)", [&] { const double* ap = &arr[0][0]; A x(ap, 2, 3); chk(x.rows() == 2 && x.cols() == 3); });
    ctor("M(r,c,e..)", [&] { A x(1, 2, 1., 2.); chk(x.rows() == 1 && x(0, 1) == 2); });
    ctor("M(r,c,wrong count)", [&] { try { A x(2, 2, 1., 2.); chk(false); } catch(const std::runtime_error&) {} });
    ctor("transpose", [&] { A x(cml::transpose(b)); chk(x.rows() == c && x.cols() == r); });
    ctor("b*T(d)", [&] { A x(b * cml::transpose(d)); chk(x.rows() == r && x.cols() == r); });
    ctor("sq*b", [&] { A x(sq * b); chk(x.rows() == r && x.cols() == c); });
    ctor("(sq*sq)*b", [&] { A x((sq * sq) * b); chk(x.rows() == r && x.cols() == c); });
    ctor("b*v", [&] { V x(b * v); chk(x.size() == r); });
    ctor("w*b", [&] { V x(w * b); chk(x.size() == c); });
    ctor("inverse", [&] { if(r) { A x = cml::inverse(sq); chk(x.rows() == r); } });
    ctor("inverse(sq*sq)", [&] { if(r) { A x = cml::inverse(sq * sq); chk(x.rows() == r); } });
    ctor("determinant", [&] { volatile double x = cml::determinant(sq); (void) x; });
    ctor("determinant(sq+sq)", [&] { volatile double x = cml::determinant(sq + sq); (void) x; });
    ctor("lu", [&] { if(r) { auto x = cml::lu(sq); chk(x.rows() == r); } });
    ctor("lu_pivot", [&] { if(r) { auto x = cml::lu_pivot(sq); chk(x.lu.rows() == r); } });
    ctor("lu_solve", [&] { if(r) { auto x = cml::lu_solve(cml::lu(sq), w); chk(x.size() == r); } });
    ctor("lu_solve pivot", [&] { if(r) { auto x = cml::lu_solve(cml::lu_pivot(sq), w); chk(x.size() == r); } });
    ctor("row", [&] { if(r) { V x(cml::row(b, 0)); chk(x.size() == c); } });
    ctor("col", [&] { if(c) { V x(cml::col(b, 0)); chk(x.size() == r); } });
    ctor("hadamard", [&] { A x(cml::hadamard(b, d)); chk(x.rows() == r); });
    ctor("concat", [&] { A x(cml::matrix_concat(sq, sq)); chk(x.rows() == r); });
    ctor("temporary a+b of temporaries", [&] { A x((b + d) + A(b) - A(d)); chk(x.rows() == r); });
    go("a=b", [&] { a = b; }, [&] { return is(a, r, c, 10); });
    go("a=move(e)", [&] { a = std::move(e); }, [&] { return is(a, r, c, 30); });
    go("a=b+d", [&] { a = b + d; }, [&] { return a.rows() == r && a.cols() == c; });
    go("a=array", [&] { a = arr; }, [&] { return a.rows() == 2 && a(1, 0) == 4; });
    go("a.resize", [&] { a.resize(r, c); }, [&] { return a.rows() == r && a.cols() == c; });
    go("a.resize_fast", [&] { a.resize_fast(r, c); }, [&] { return a.rows() == r && a.cols() == c; });
    go("a=sq*b", [&] { a = sq * b; }, [&] { return a.rows() == r && a.cols() == c; });
    go("a=T(b)", [&] { a = cml::transpose(b); }, [&] { return a.rows() == c && a.cols() == r; });
    go("a.transpose()", [&] { a.transpose(); }, [&] { return a.rows() == pc && a.cols() == pr; });
    go("a=inverse(sq)", [&] { if(r) a = cml::inverse(sq); }, [&] { return r == 0 || a.rows() == r; });
    go("a=sq; a.inverse()", [&] { if(r) { a = sq; a.inverse(); } }, [&] { return r == 0 || a.rows() == r; });
    go("a=b; a*=sq'", [&] { if(r) { a = sq; a = a * sq; } }, [&] { return r == 0 || a.rows() == r; });
  }
  settle(name, live0);
}

struct Reg
{
  Reg()
  {
    mc::add("vectors", vectors);
    mc::add("matrices col_basis row_major", matrices<MT<cml::col_basis, cml::row_major>>);
    mc::add("matrices row_basis col_major", matrices<MT<cml::row_basis, cml::col_major>>);
  }
} reg;
} // namespace
