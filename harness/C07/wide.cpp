// Structural queries and edits of matrices of every shape of the list.
#include "../wide.h"
namespace {
using namespace wide;
template<class T, class B, class L, bool Fixed> void all()
{
  matrices<Fixed>([](auto t, int r, int c) {
    using S = typename decltype(t)::type;
    if(!r || !c) return;
    constexpr bool rb = std::is_same_v<B, cml::row_basis>, rm = std::is_same_v<L, cml::row_major>;
    MB<T, S, B, L> A(r, c); auto& m = A.m; const auto& k = m;
    mat g = fillm(m, r, c, [](int i) { return val(i); });
    auto row = [&](int i) { vec o; for(int j = 0; j < c; ++j) o.push_back(g(i, j)); return o; };
    auto col = [&](int j) { vec o; for(int i = 0; i < r; ++i) o.push_back(g(i, j)); return o; };
    auto done = [&](const char* what) {
      MC_CHECK(m.rows() == r && m.cols() == c && m.basis_count() == (rb ? r : c) && m.basis_size() == (rb ? c : r) && m.end() - m.begin() == r * c, "size", what);
      for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) MC_CHECK(m(i, j) == g(i, j) && k.get(i, j) == m(i, j) && (rb ? k.basis_element(i, j) : k.basis_element(j, i)) == m(i, j) && k.data()[rm ? i * c + j : j * r + i] == m(i, j), "large", what << ": (" << i << "," << j << ") of " << r << "x" << c << " is " << double(m(i, j)) << ", expected " << g(i, j));
      MC_CHECK(A.ok(), "guard", what); mc::step(); mc::state(hash(g));
    };
    const int I = mc::choose(3) * (r - 1) / 2, J = mc::choose(3) * (c - 1) / 2;
    cml::vector<T, cml::dynamic<>> rv(c), cv(r);
    const vec x = fillv(rv, c, [](int j) { return 5000 + j; }), y = fillv(cv, r, [](int i) { return -5000 - i; });
    auto setr = [&](int i, const vec& v) { for(int j = 0; j < c; ++j) g(i, j) = v[size_t(j)]; };
    auto setc = [&](int j, const vec& v) { for(int i = 0; i < r; ++i) g(i, j) = v[size_t(i)]; };
    switch(mc::choose(16)) {
    case 0: return done("put");
    case 1: m.set_row(I, rv); setr(I, x); return done("set_row");
    case 2: m.set_col(J, cv); setc(J, y); return done("set_col");
    case 3: m.set_row(I, rv + rv); setr(I, scale(x, 2)); return done("set_row of an expression");
    case 4: m.set_col(J, cv - T(3) * cv); setc(J, scale(y, -2)); return done("set_col of an expression");
    case 5: m.set_row(r - 1, cml::row(k, I)); setr(r - 1, row(I)); return done("set_row of its own row");
    case 6: m.set_col(c - 1, cml::col(k, J)); setc(c - 1, col(J)); return done("set_col of its own column");
    case 7: expectv(cml::row(m, I), row(I), "row"); expectv(cml::row(k, I), row(I), "row of const"); { auto v = cml::row(m, I); m(I, J) = T(4242); g(I, J) = 4242; expectv(v, row(I), "row view after a write"); } return done("row");
    case 8: expectv(cml::col(m, J), col(J), "col"); expectv(cml::col(k, J), col(J), "col of const"); { auto v = cml::col(m, J); m(I, J) = T(4242); g(I, J) = 4242; expectv(v, col(J), "col view after a write"); } return done("col");
    case 9: expectv(cml::basis(k, rb ? I : J), rb ? row(I) : col(J), "basis"); expectv(cml::matrix_get_basis_vector_nD(k, rb ? I : J), rb ? row(I) : col(J), "matrix_get_basis_vector_nD"); { cml::vector<T, cml::dynamic<>> v; v = cml::basis(m, rb ? I : J); expectv(v, rb ? row(I) : col(J), "stored basis"); } return done("basis");
    case 10: expectm(cml::transpose(k), transpose(g), "transpose view"); expectm(cml::transpose(cml::transpose(m)), g, "twice"); expectv(cml::col(cml::transpose(k), I), row(I), "col of transpose"); expectv(cml::row(cml::transpose(k), J), col(J), "row of transpose"); return done("transpose view");
    case 11: { if(r != c) return; if constexpr(std::is_same_v<S, cml::dynamic<>> || std::is_same_v<S, cml::external<>> || std::is_same_v<S, cml::fixed<5, 5>> || std::is_same_v<S, cml::fixed<8, 8>> || std::is_same_v<S, cml::external<17, 17>>) { double s = 0; for(int i = 0; i < r; ++i) s += g(i, i); MC_CHECK(double(k.trace()) == s && double(cml::trace(m)) == s && double(cml::trace(m + m)) == 2 * s, "large", "trace of " << r << "x" << c << " is " << double(k.trace()) << ", expected " << s); } return done("trace"); }
    case 12: for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) g(i, j) = i == j; m.identity(); return done("identity");
    case 13: { const double v = g(I, J); g = mat(r, c, v); m.fill(m(I, J)); return done("fill with its own element"); }
    case 14: if(rb) m.set_basis_element(I, J, T(777)); else m.set_basis_element(J, I, T(777)); g(I, J) = 777; return done("set_basis_element");
    case 15: { cml::vector<T, cml::dynamic<>> p(cml::row(m, I)), q(cml::row(m, r - 1)); m.set_row(I, q); m.set_row(r - 1, p); const vec u = row(I), w = row(r - 1); setr(I, w); setr(r - 1, u); return done("row exchange"); }
    }
  });
}
struct R { R() {
  mc::add("large double row basis row major", all<double, cml::row_basis, cml::row_major, true>);
  mc::add("large double col basis col major", all<double, cml::col_basis, cml::col_major, false>);
  mc::add("large float row basis col major", all<float, cml::row_basis, cml::col_major, false>);
  mc::add("large int col basis row major", all<int, cml::col_basis, cml::row_major, false>);
} } r;
}
