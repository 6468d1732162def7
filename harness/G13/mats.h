#include "scale.h"
#include "../linalg.h"
namespace g13 {
// Square matrices: everything that has a degree in their elements.
template<class M, class V> void squares(const std::string& name, int n)
{
  using E = value_type_trait_of_t<M>;
  static const int big = sizeof(E) == 4 ? (n > 4 ? 20 : 24) : 120;
  mc::add(name, [n] {
    const ref::mat a = n == 2 ? lin::all(2, -2, 2) : n == 3 ? lin::all(3, -1, 1) : mc::thorough() ? lin::any(n, false) : lin::circulant(n);
    homogeneous<E>(n < 4 ? "matrix" : "larger matrix", 1, big, [&](Out& o, double s, double, double) {
      const M m = makem<M>(a, s);
      const bool regular = lin::xdet(a) != 0;
      const E d = determinant(m);
      o.num(d, n); o.num(m.determinant(), n); o.num(trace(m), 1); o.num(m.trace(), 1);
      M t = transpose(m); o.mat(t, 1);
      o.mat(M(m * m), 2); o.mat(M(m * t), 2); o.mat(M(m + m - E(3) * t), 1); o.mat(M(hadamard(m, t)), 2);
      o.num(m == t); o.num(m != t);
      auto p = lu_pivot(m);
      // (A singular matrix may leave a rounded pivot.)
      if(regular) o.num(p.sign);
      if(regular && p.sign != 0) {
        for(int i = 0; i < n; ++i) {
          o.num(p.order[size_t(i)]);
          for(int j = 0; j < n; ++j) o.num(double(p.lu(i, j)), j < i ? 0 : 1);
        }
        V b = make<V>(ref::vec{1, -2, 3, 1, 2, -1, 4, 1}, 1);
        if constexpr(is_dynamic_size<vector_traits<V>>::value) b.resize(n);
        o.vec(V(lu_solve(p, b)), -1);
        o.vec(V(m * b), 1); o.vec(V(b * m), 1);
      }
      if(regular) { o.mat(inverse(m), -1); M i = m; i.inverse(); o.mat(i, -1); o.mat(M(m * inverse(m))); }
      for(int i = 0; i < n; ++i) { o.vec(row(m, i), 1); o.num(row(m, i).length(), 1); o.vec(V(col(m, i)), 1); }
    });
  });
  mc::add(name + " systems", [n] {
    const ref::mat a = n == 2 ? lin::all(2, -2, 2) : n == 3 ? lin::all(3, -1, 1) : mc::thorough() ? lin::any(n, false) : lin::circulant(n);
    homogeneous<E>("system", 2, big, [&](Out& o, double s, double r, double) {
      const M m = makem<M>(a, s);
      const auto p = lu_pivot(m);
      if(lin::xdet(a) == 0) return;
      o.num(p.sign);
      if(p.sign == 0) return;
      V b = make<V>(ref::vec{1, -2, 3, 1, 2, -1, 4, 1}, r);
      if constexpr(is_dynamic_size<vector_traits<V>>::value) b.resize(n);
      const V x = lu_solve(p, b);
      o.vec(x, -1, 1);
      V y = b; lu_solve(p, y, b); o.vec(y, -1, 1);
      o.vec(V(m * x), 0, 1);
    });
  });
}

// Each row in a unit of its own: the determinant has degree one in every row,
// and column j of the inverse degree minus one in row j.
template<class M> void rows(const std::string& name, int n)
{
  using E = value_type_trait_of_t<M>;
  mc::add(name + " rows", [n] {
    const ref::mat a = n == 2 ? lin::all(2, -2, 2) : lin::all(3, -1, 1);
    homogeneous<E>("rows", n, sizeof(E) == 4 ? 14 : 100, [&](Out& o, double s0, double s1, double s2) {
      const double s[3] = {s0, s1, s2};
      ref::mat b = a, c(n, n);
      for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { b(i, j) *= s[i]; c(j, i) = b(i, j); }
      const M m = makem<M>(b, 1), t = makem<M>(c, 1);
      o.num(determinant(m), 1, 1, n == 3); o.num(t.determinant(), 1, 1, n == 3);
      if(lin::xdet(a) == 0) return;
      const M i = inverse(m), k = inverse(t);
      for(int r = 0; r < n; ++r) for(int q = 0; q < n; ++q) {
        o.num(double(i(r, q)), -(q == 0), -(q == 1), -(q == 2));
        o.num(double(k(q, r)), -(q == 0), -(q == 1), -(q == 2));
      }
    });
  });
}

template<class M> void projections(const std::string& name)
{
  using E = value_type_trait_of_t<M>;
  static const int big = sizeof(E) == 4 ? 24 : 200;
  mc::add(name + " projections", [] {
    const double L[] = {-2, -1, .5}, W[] = {1, 3}, N[] = {.5, 1, 2}, D[] = {1, 50};
    const double l = L[mc::choose(3)], w = W[mc::choose(2)], b = L[mc::choose(3)], h = W[mc::choose(2)], n = N[mc::choose(3)], d = D[mc::choose(2)];
    const AxisOrientation side = mc::choose(2) ? left_handed : right_handed;
    const ZClip z = mc::choose(2) ? z_clip_zero : z_clip_neg_one;
    homogeneous<E>("projection", 1, big, [&](Out& o, double s, double, double) {
      M m, q; cml::detail::check_or_resize(m, 4, 4); cml::detail::check_or_resize(q, 4, 4);
      // Lengths carry the unit: entries by the basis vector they multiply.
      const auto put = [&](const M& m, bool persp) {
        for(int j = 0; j < 4; ++j) for(int i = 0; i < 4; ++i) o.num(double(m.basis_element(j, i)), persp ? (j == 3 ? 1 : 0) : (j == 3 ? 0 : -1));
      };
      const auto planes = [&](const M& m, bool) {
        E p[6][4];
        extract_frustum_planes(m, p, z, true);
        for(auto& r : p) for(int i = 0; i < 4; ++i) o.num(double(r[i]), i == 3 ? 1 : 0);
      };
      matrix_orthographic(m, E(s * l), E(s * (l + w)), E(s * b), E(s * (b + h)), E(s * n), E(s * (n + d)), side, z); put(m, false); planes(m, false);
      matrix_orthographic(m, E(s * w), E(s * h), E(s * n), E(s * (n + d)), side, z); put(m, false); planes(m, false);
      matrix_perspective(m, E(s * l), E(s * (l + w)), E(s * b), E(s * (b + h)), E(s * n), E(s * (n + d)), side, z); put(m, true); planes(m, true);
      matrix_perspective(m, E(s * w), E(s * h), E(s * n), E(s * (n + d)), side, z); put(m, true); planes(m, true);
      matrix_perspective_xfov(m, E(1.2), E(w), E(s * n), E(s * (n + d)), side, z); put(m, true); planes(m, true);
      matrix_perspective_yfov(m, E(.9), E(w), E(s * n), E(s * (n + d)), side, z); put(m, true); planes(m, true);
      // A modelview with a translation, concatenated.
      matrix_translation(q, E(s * 2), E(s * -3), E(s * 5));
      E p[6][4];
      extract_frustum_planes(q, m, p, z, true);
      for(auto& r : p) for(int i = 0; i < 4; ++i) o.num(double(r[i]), i == 3 ? 1 : 0);
    });
  });
  mc::add(name + " planes", [] {
    const double L[] = {-2, -1, .5}, W[] = {1, 3}, N[] = {.5, 1, 2}, D[] = {1, 50};
    const double l = L[mc::choose(3)], w = W[mc::choose(2)], b = L[mc::choose(3)], h = W[mc::choose(2)], n = N[mc::choose(3)], d = D[mc::choose(2)];
    const AxisOrientation side = mc::choose(2) ? left_handed : right_handed;
    const ZClip z = mc::choose(2) ? z_clip_zero : z_clip_neg_one;
    // The projection is defined up to a factor: its planes do not change.
    homogeneous<E>("planes", 1, sizeof(E) == 4 ? 40 : 300, [&](Out& o, double s, double, double) {
      M m; cml::detail::check_or_resize(m, 4, 4);
      matrix_perspective(m, E(l), E(l + w), E(b), E(b + h), E(n), E(n + d), side, z);
      m *= E(s);
      E p[6][4];
      extract_frustum_planes(m, p, z, true);
      for(auto& r : p) for(double x : r) o.num(x);
      extract_frustum_planes(m, p, z, false);
      for(auto& r : p) for(double x : r) o.num(x, 1);
      extract_near_frustum_plane(m, p[0], z);
      for(double x : p[0]) o.num(x, 1);
      using V = vector<E, fixed<3>>;
      for(double x : {-1., .5}) {
        const V q = transform_point_4D(m, make<V>({x, 2, side == right_handed ? -1.5 : 1.5}, 1));
        o.vec(q);
      }
    });
  });
}
}
