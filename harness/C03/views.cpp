// C03: every history of operations through several views over one guarded buffer.
#include "mc.h"
#include <cml/matrix.h>
#include <cml/vector.h>
#include <memory>
#include <vector>

namespace {

constexpr int N = 16; // 0,1 and 14,15 are guards

template<class E> struct World
{
  using VF = cml::vector<E, cml::external<3>>;
  using VD = cml::vector<E, cml::external<>>;
  using CF = cml::vector<const E, cml::external<3>>;
  using CD = cml::vector<const E, cml::external<>>;
  using MR = cml::matrix<E, cml::external<2, 2>, cml::row_basis, cml::row_major>;
  using MC = cml::matrix<E, cml::external<2, 2>, cml::col_basis, cml::col_major>;
  using MD = cml::matrix<E, cml::external<>, cml::row_basis, cml::col_major>;
  using MS = cml::matrix<E, cml::external<>, cml::col_basis, cml::row_major>;

  std::unique_ptr<E[]> mem{new E[N]};
  E* b = mem.get();
  E m[N]; // model
  int fresh = 100;
  // The views.
  VF vf{b + 2};             // 2..4
  VF vf2{b + 9};            // 9..11
  VD vd{b + 6, 3};          // 6..8
  VD vd2;                   // unbound until moved into
  CF cf{b + 2};             // read-only over 2..4
  CD cd{b + 5, 4};          // read-only over 5..8
  MR mr{b + 2};             // 2..5, row major
  MC mc_{b + 2};            // 2..5, column major: the same memory
  MD md{b + 6, 2, 3};       // 6..11, column major
  MS ms{2, 2, b + 10};      // 10..13, row major
  int vd_off = 6, vd2_off = -1; // -1: unbound / moved from
  int md_r = 2, md_c = 3;

  World() { for(int i = 0; i < N; ++i) m[i] = b[i] = E(i + 1); }
  E next() { return E(fresh++); }
  E& md_at(int i, int j) { return m[6 + j * md_r + i]; }

  void check(const char* op)
  {
    mc::Hash H;
    for(int i = 0; i < N; ++i) {
      MC_CHECK(b[i] == m[i], (i < 2 || i > 13) ? "guard" : "memory", op << ": element " << i << " of the wrapped memory is " << b[i] << ", expected " << m[i]);
      H(int(m[i]));
    }
    auto vec = [&](const auto& v, int off, int n, const char* name) {
      MC_CHECK(v.size() == n, "size", op << ": " << name << ".size() is " << v.size());
      MC_CHECK(v.data() == b + off && v.begin() == b + off && v.end() == b + off + n, "rebound", op << ": " << name << " wraps other memory");
      for(int i = 0; i < n; ++i)
        MC_CHECK(v[i] == m[off + i] && v.get(i) == m[off + i], "view-read", op << ": " << name << "[" << i << "] is " << v[i] << ", expected " << m[off + i]);
    };
    vec(vf, 2, 3, "fixed view"); vec(vf2, 9, 3, "second fixed view");
    if(vd_off >= 0) vec(vd, vd_off, 3, "dynamic view");
    if(vd2_off >= 0) vec(vd2, vd2_off, 3, "second dynamic view");
    vec(cf, 2, 3, "const fixed view"); vec(cd, 5, 4, "const dynamic view");
    auto mat = [&](const auto& v, int off, int r, int c, bool rowmaj, const char* name) {
      MC_CHECK(v.rows() == r && v.cols() == c, "size", op << ": " << name << " is " << v.rows() << "x" << v.cols());
      MC_CHECK(v.data() == b + off && v.begin() == b + off && v.end() == b + off + r * c, "rebound", op << ": " << name << " wraps other memory");
      for(int i = 0; i < r; ++i)
        for(int j = 0; j < c; ++j) {
          const E w = m[off + (rowmaj ? i * c + j : j * r + i)];
          MC_CHECK(v(i, j) == w && v.get(i, j) == w, "view-read", op << ": " << name << "(" << i << "," << j << ") is " << v(i, j) << ", expected " << w);
        }
    };
    mat(mr, 2, 2, 2, true, "row-major fixed matrix view");
    mat(mc_, 2, 2, 2, false, "col-major fixed matrix view");
    mat(md, 6, md_r, md_c, false, "dynamic matrix view");
    mat(ms, 10, 2, 2, true, "row-major dynamic matrix view");
    mc::state(H(md_r)(vd_off)(vd2_off));
  }

  static constexpr int OPS = 46;
  // Returns the operation's name; null if not enabled here.
  const char* apply(int k)
  {
    E x = next(), y = next(), z = next(), u = next();
    switch(k) {
      // Raw writes show through every view.
      case 0: b[3] = m[3] = x; return "raw write";
      case 1: b[7] = m[7] = x; return "raw write";
      case 2: b[11] = m[11] = x; return "raw write";
      // Element writes.
      case 3: vf[1] = x; m[3] = x; return "vf[1]=";
      case 4: vf.put(2, x); m[4] = x; return "vf.put(2)";
      case 5: vf2.get(0) = x; m[9] = x; return "vf2.get(0)=";
      case 6: if(vd_off < 0) return nullptr; vd[2] = x; m[vd_off + 2] = x; return "vd[2]=";
      case 7: mr(0, 1) = x; m[3] = x; return "mr(0,1)=";
      case 8: mc_.put(0, 1, x); m[4] = x; return "mc.put(0,1)";
      case 9: md(1, 1) = x; md_at(1, 1) = x; return "md(1,1)=";
      case 10: ms.get(1, 0) = x; m[12] = x; return "ms.get(1,0)=";
      // Assignments write elements.
      case 11: { auto& r = (vf = cml::vector<E, cml::compiled<3>>(x, y, z)); MC_CHECK(&r == &vf, "returned-reference", "vf="); m[2] = x; m[3] = y; m[4] = z; return "vf=fixed"; }
      case 12: { auto& r = (vf = static_cast<const VF&>(vf2)); MC_CHECK(&r == &vf, "returned-reference", "vf=vf2"); for(int i = 0; i < 3; ++i) m[2 + i] = m[9 + i]; return "vf=vf2 (copy)"; }
      case 13: if(vd_off < 0) return nullptr; vd = cml::vector<E, cml::dynamic<>>(x, y, z); for(int i = 0; i < 3; ++i) m[vd_off + i] = i == 0 ? x : i == 1 ? y : z; return "vd=dynamic";
      case 14: if(vd_off < 0) return nullptr; vd = vf; for(int i = 0; i < 3; ++i) m[vd_off + i] = m[2 + i]; return "vd=vf";
      case 15: vf += vf2; for(int i = 0; i < 3; ++i) m[2 + i] += m[9 + i]; return "vf+=vf2";
      case 16: if(vd_off < 0) return nullptr; vd -= cf; for(int i = 0; i < 3; ++i) m[vd_off + i] -= m[2 + i]; return "vd-=cf";
      case 17: vf2 *= E(2); for(int i = 0; i < 3; ++i) m[9 + i] *= 2; return "vf2*=2";
      case 18: vf2 = vf + vf; for(int i = 0; i < 3; ++i) m[9 + i] = m[2 + i] + m[2 + i]; return "vf2=vf+vf";
      case 19: vf.zero(); m[2] = m[3] = m[4] = 0; return "vf.zero()";
      case 20: if(vd_off < 0) return nullptr; vd.fill(x); m[vd_off] = m[vd_off + 1] = m[vd_off + 2] = x; return "vd.fill";
      case 21: { E a[3] = {x, y, z}; vf2 = a; m[9] = x; m[10] = y; m[11] = z; return "vf2=array"; }
      case 22: vf.set(x, y, z); m[2] = x; m[3] = y; m[4] = z; return "vf.set";
      case 23: vf2.cardinal(1); m[9] = 0; m[10] = 1; m[11] = 0; return "vf2.cardinal(1)";
      case 24: mr = cml::matrix<E, cml::compiled<2, 2>, cml::row_basis, cml::col_major>(x, y, z, u); m[2] = x; m[3] = y; m[4] = z; m[5] = u; return "mr=fixed";
      case 25: mc_ = cml::matrix<E, cml::dynamic<>, cml::col_basis, cml::row_major>(2, 2, x, y, z, u); m[2] = x; m[4] = y; m[3] = z; m[5] = u; return "mc=dynamic";
      case 26: ms = mr; m[10] = m[2]; m[11] = m[3]; m[12] = m[4]; m[13] = m[5]; return "ms=mr";
      case 27: mr.transpose(); std::swap(m[3], m[4]); return "mr.transpose()";
      case 28: md *= E(3); for(int i = 6; i < 12; ++i) m[i] *= 3; return "md*=3";
      case 29: mr += ms; for(int i = 0; i < 4; ++i) m[2 + i] += m[10 + i]; return "mr+=ms";
      case 30: mr.identity(); m[2] = m[5] = 1; m[3] = m[4] = 0; return "mr.identity()";
      case 31: md.fill(x); for(int i = 6; i < 12; ++i) m[i] = x; return "md.fill";
      case 32: ms.set_row(1, cml::vector<E, cml::compiled<2>>(x, y)); m[12] = x; m[13] = y; return "ms.set_row(1)";
      case 33: md.set_col(0, cml::col(ms, 1)); if(md_r != 2) return "rejected"; md_at(0, 0) = m[11]; md_at(1, 0) = m[13]; return "md.set_col(0)";
      case 34: md.set_basis_element(1, 0, x); md_at(1, 0) = x; return "md.set_basis_element";
      case 35: ms.set_basis_element(1, 0, x); m[11] = x; return "ms.set_basis_element";
      // Reshape: elements keep their place in memory.
      case 36: if(md_r == 2) { md.resize(3, 2); md_r = 3; md_c = 2; } else { md.resize(2, 3); md_r = 2; md_c = 3; } return "md.resize";
      case 37: { bool t = false; try { md.resize(3, 3); } catch(const cml::matrix_size_error&) { t = true; } MC_CHECK(t, "missing-size-error", "reshape to another element count"); return "md.resize(3,3)"; }
      // Copies and moves of views.
      case 38: { VF c(vf); c[0] = x; m[2] = x; MC_CHECK(c.data() == b + 2 && c.size() == 3, "rebound", "copy of a fixed view"); return "copy view, write"; }
      case 39: if(vd_off < 0) return nullptr; { VD c(vd); c.put(1, x); m[vd_off + 1] = x; MC_CHECK(c.size() == 3, "size", "copy of a dynamic view"); return "copy dynamic view, write"; }
      case 40: if(vd_off < 0) return nullptr; vd2 = std::move(vd); vd2_off = vd_off; vd_off = -1; return "vd2=move(vd)";
      case 41: if(vd2_off < 0) return nullptr; vd = std::move(vd2); vd_off = vd2_off; vd2_off = -1; return "vd=move(vd2)";
      case 42: { VF t(b + 9); VF c(std::move(t)); c[2] = x; m[11] = x; MC_CHECK(c.data() == b + 9, "rebound", "moved view"); return "move view, write"; }
      case 43: { MD t(b + 6, md_r, md_c); MD c(std::move(t)); c(0, 1) = x; md_at(0, 1) = x; MC_CHECK(c.rows() == md_r && c.cols() == md_c, "size", "moved matrix view"); return "move matrix view, write"; }
      case 44: { MR t(b + 2); MR c(std::move(t)); c(1, 1) = x; m[5] = x; return "move fixed matrix view, write"; }
      case 45: { VD t(b + 9, 3); t.reset(); MC_CHECK(t.size() == 0 && t.data() == nullptr, "reset", "reset view keeps elements"); MD q(2, 2, b + 2); q.reset(); MC_CHECK(q.rows() == 0 && q.cols() == 0 && q.data() == nullptr, "reset", "reset matrix view"); return "reset views"; }
    }
    return nullptr;
  }
};

template<class E> void run(int depth, int shard, int shards)
{
  using W = World<E>;
  W w;
  for(int d = 0; d < depth; ++d) {
    // Shard on the first operation.
    int k;
    if(d == 0) {
      const int cnt = (W::OPS - shard + shards - 1) / shards;
      k = shard + shards * mc::choose(cnt);
    } else k = mc::choose(W::OPS);
    const char* n;
    if(k == 33 && w.md_r != 2) { // size mismatch is rejected and nothing is written
      bool t = false;
      try { w.md.set_col(0, cml::col(w.ms, 1)); } catch(const cml::incompatible_matrix_col_size_error&) { t = true; }
      catch(const cml::incompatible_matrix_row_size_error&) { t = true; }
      catch(const cml::matrix_size_error&) { t = true; }
      MC_CHECK(t, "missing-size-error", "set_col with a vector of the wrong size");
      n = "rejected set_col";
    } else n = w.apply(k);
    if(!n) continue;
    mc::step();
    MC_TRACE(n);
    w.check(n);
  }
}

struct R
{
  R()
  {
#ifdef MC_THOROUGH
    const int d = 5;
#else
    const int d = 4;
#endif
    for(int s = 0; s < 8; ++s) {
      mc::add("views-double-shard" + std::to_string(s), [=] { run<double>(d, s, 8); });
      mc::add("views-int-shard" + std::to_string(s), [=] { run<int>(d == 5 ? 4 : 3, s, 8); });
    }
    // 2D-array constructors take the layout into account.
    mc::add("array-constructors", [] {
      double a[3][2] = {{1, 2}, {3, 4}, {5, 6}};
      using RM = cml::matrix<double, cml::external<>, cml::row_basis, cml::row_major>;
      using CM = cml::matrix<double, cml::external<>, cml::row_basis, cml::col_major>;
      using FR = cml::matrix<double, cml::external<3, 2>, cml::row_basis, cml::row_major>;
      using FC = cml::matrix<double, cml::external<2, 3>, cml::row_basis, cml::col_major>;
      const int wi = mc::choose(3), wj = mc::choose(2), form = mc::choose(4);
      double want[3][2];
      std::memcpy(want, a, sizeof a);
      mc::step();
      want[wi][wj] = 42;
      auto rd = [&](auto& m, bool rm) {
        MC_CHECK(m.rows() == (rm ? 3 : 2) && m.cols() == (rm ? 2 : 3), "size", m.rows() << "x" << m.cols());
        if(rm) m(wi, wj) = 42; else m(wj, wi) = 42;
        for(int i = 0; i < 3; ++i) for(int j = 0; j < 2; ++j) {
          MC_CHECK(a[i][j] == want[i][j], "memory", "array element " << i << "," << j);
          MC_CHECK((rm ? m(i, j) : m(j, i)) == want[i][j], "view-read", "element " << i << "," << j);
        }
        mc::state(mc::Hash()(wi)(wj)(form));
      };
      if(form == 0) { RM m(a); rd(m, true); }
      else if(form == 1) { CM m(a); rd(m, false); }
      else if(form == 2) { FR m(a); rd(m, true); }
      else { FC m(a); rd(m, false); }
    });
  }
} r;

} // namespace
