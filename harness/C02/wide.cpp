// Histories over large matrices: construct with one shape, resize / assign with
// another, every pair of shapes, with the counting allocator.
#include "alloc.h"
#include "wide.h"
#include <optional>
namespace {
using namespace wide;
using A = h::CountAlloc<void*>;
template<class E, class B, class L> void history()
{
  using M = cml::matrix<E, cml::dynamic<A>, B, L>;
  using OL = std::conditional_t<std::is_same_v<L, cml::row_major>, cml::col_major, cml::row_major>;
  constexpr bool rm = std::is_same_v<L, cml::row_major>;
  auto& as = h::alloc_state(); as.reset();
  {
    const int r = dim(), c = dim();
    std::optional<M> o;
    int R = r, C = c; std::vector<E> m; std::vector<char> known; // storage order
    int salt = 0;
    auto src = [&](int p, int q) { mat g(p, q); for(int i = 0; i < p * q; ++i) g.d[size_t(i)] = val(i, salt); ++salt; return g; };
    auto is = [&](const mat& g) { R = g.r; C = g.c; m.resize(g.d.size()); known.assign(g.d.size(), 1); for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) m[size_t(rm ? i * C + j : j * R + i)] = E(g(i, j)); };
    auto put = [&](auto& t, const mat& g) { for(int i = 0; i < g.r; ++i) for(int j = 0; j < g.c; ++j) t.put(i, j, E(g(i, j))); };
    auto check = [&](const char* w) {
      MC_CHECK(as.bad.empty(), "allocator", w << ": " << as.bad);
      MC_CHECK(o->rows() == R && o->cols() == C && o->end() - o->begin() == R * C && o->begin() == o->data(), "size", w << ": " << o->rows() << "x" << o->cols() << ", expected " << R << "x" << C);
      for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { const size_t k = size_t(rm ? i * C + j : j * R + i); if(known[k]) MC_CHECK((*o)(i, j) == m[k] && o->data()[k] == m[k], "element", w << ": (" << i << "," << j << ") of " << R << "x" << C << " is " << double((*o)(i, j)) << ", expected " << double(m[k])); }
      mc::step();
    };
    switch(mc::choose(4)) {
    case 0: { o.emplace(r, c); const mat g = src(r, c); put(*o, g); is(g); check("construct(rows,cols)"); } break;
    case 1: { const mat g = src(r, c); std::vector<E> b; for(int i = 0; i < r * c; ++i) b.push_back(E(g.d[size_t(i)])); const E* p = b.data(); o.emplace(r, c, p); is(g); check("construct(rows,cols,ptr)"); } break;
    case 2: { const mat g = src(r, c); M t(r, c); put(t, g); o.emplace(t); is(g); t.zero(); check("construct(copy), source overwritten"); } break;
    case 3: { const mat g = src(r, c); cml::matrix<E, cml::dynamic<A>, B, OL> t(r, c); put(t, g); o.emplace(t); is(g); t.zero(); check("construct(other layout), source overwritten"); } break;
    }
    static const int shp[][2] = {{0, 0}, {1, 1}, {2, 9}, {9, 2}, {4, 4}, {5, 7}, {8, 8}, {16, 16}, {17, 3}, {3, 17}, {33, 5}, {1, 40}, {40, 1}};
    const int op = mc::choose(10), s = op >= 6 ? 0 : mc::choose(13), p = shp[s][0], q = shp[s][1];
    switch(op) {
    case 0: { o->resize(p, q); R = p; C = q; m.resize(size_t(p * q)); known.resize(size_t(p * q), 0); check("resize"); } break;
    case 1: { o->resize_fast(p, q); if(p != R || q != C) { m.assign(size_t(p * q), E(0)); known.assign(size_t(p * q), 0); R = p; C = q; } check("resize_fast"); const mat g = src(p, q); put(*o, g); is(g); check("put after resize_fast"); } break;
    case 2: { const mat g = src(p, q); M t(p, q); put(t, g); *o = static_cast<const M&>(t); is(g); t.zero(); check("copy-assign, source overwritten"); } break;
    case 3: { const mat g = src(p, q); M t(p, q); put(t, g); *o = std::move(t); is(g); check("move-assign"); } break;
    case 4: { const mat g = src(p, q); cml::matrix<E, cml::dynamic<A>, B, OL> t(p, q); put(t, g); *o = t; is(g); t.zero(); check("assign other layout, source overwritten"); } break;
    case 5: { const mat g = src(p, q); M t(p, q); put(t, g); *o = t + t; is(scale(g, 2)); check("assign expression"); } break;
    case 6: { mat g(R, C); for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) g(i, j) = double(m[size_t(rm ? i * C + j : j * R + i)]); o->transpose(); is(transpose(g)); check("transpose in place"); } break;
    case 7: { o->fill(E(7)); is(mat(R, C, 7)); check("fill"); } break;
    case 8: { o->identity(); mat g(R, C); for(int i = 0; i < R && i < C; ++i) g(i, i) = 1; is(g); check("identity"); } break;
    case 9: { if(!R || !C) break; mat g(R, C); for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) g(i, j) = double(m[size_t(rm ? i * C + j : j * R + i)]);
        cml::vector<E, cml::dynamic<A>> x(C), y(R); for(int j = 0; j < C; ++j) { x[j] = E(5000 + j); g(R - 1, j) = 5000 + j; } o->set_row(R - 1, x); for(int i = 0; i < R; ++i) { y[i] = E(7000 + i); g(i, C - 1) = 7000 + i; } o->set_col(C - 1, y); is(g); check("set_row, set_col"); } break;
    }
    mc::Hash H; H(R)(C); for(size_t i = 0; i < m.size(); ++i) H(known[i] ? double(m[i]) : -1); mc::state(H);
  }
  MC_CHECK(as.bad.empty(), "allocator", "at destruction: " << as.bad);
  MC_CHECK(as.live.empty(), "leak", as.live.size() << " allocation(s) never released");
}
struct R { R() {
  mc::add("large double row basis row major", history<double, cml::row_basis, cml::row_major>);
  mc::add("large double col basis col major", history<double, cml::col_basis, cml::col_major>);
  mc::add("large float row basis col major", history<float, cml::row_basis, cml::col_major>);
  mc::add("large int col basis row major", history<int, cml::col_basis, cml::row_major>);
} } r;
}
