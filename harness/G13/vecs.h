#include "scale.h"
namespace g13 {
// Vectors of n elements, float scales kept where no fourth power overflows.
template<class V> void vectors(const std::string& name, int n)
{
  using E = value_type_trait_of_t<V>;
  static const int big = sizeof(E) == 4 ? 24 : 120;
  mc::add(name + " lengths", [n] {
    const auto p = pick(n), q = pick(n);
    homogeneous<E>("lengths", 2, big, [&](Out& o, double a, double b, double) {
      const V v = make<V>(p, a), w = make<V>(q, b);
      o.num(v.length(), 1); o.num(length(v), 1); o.num(length_squared(v), 2); o.num(v.length_squared(), 2);
      o.num(dot(v, w), 1, 1); o.num(dot(w, w), 0, 2);
      o.vec(V(v * 3), 1); o.vec(V(-v), 1); o.vec(V(hadamard(v, w)), 1, 1);
      o.mat(outer(v, w), 1, 1);
      o.vec(project_to_vector(v, w), 1); o.vec(project_to_hplane(v, V(w / V(w).length())), 1);
    });
  });
  mc::add(name + " normalize", [n] {
    const auto p = pick(n, 4);
    homogeneous<E>("normalize", 1, sizeof(E) == 4 ? 60 : 500, [&](Out& o, double a, double, double) {
      const V v = make<V>(p, a);
      o.num(v.length(), 1); o.num(length_squared(v), 2);
      o.vec(normalize(v)); o.vec(v.normalize());
      V w = v; w.normalize(); o.vec(w);
      V x = v; o.vec(std::move(x).normalize());
      o.vec(normalize(v + v)); o.num(length(v - 3 * v), 1);
      V t = v; t *= E(2); t += v; t -= E(2) * v; t /= E(4); o.vec(t, 1);
      o.vec(V(v / E(2)), 1);
      if constexpr(true) { V m = v; m.minimize(V(2 * v)); o.vec(m, 1); m.maximize(V(-v)); o.vec(m, 1); }
    });
  });
  mc::add(name + " differences", [n] {
    const auto p = pick(n), q = pick(n);
    homogeneous<E>("differences", 1, big, [&](Out& o, double a, double, double) {
      const V v = make<V>(p, a), w = make<V>(q, a);
      o.num(manhattan_distance(v, w), 1); o.num(length(v - w), 1); o.num((v - w).length_squared(), 2);
      o.vec(V(v + w), 1); o.vec(V(v - w), 1); o.num(dot(v + w, v - w), 2);
      o.num(v == w); o.num(v != w); o.num(v < w); o.num(v <= w); o.num(v > w); o.num(v >= w);
    });
  });
}

template<class V, class M, class A> void planar(const std::string& name)
{
  using E = value_type_trait_of_t<V>;
  static const int big = sizeof(E) == 4 ? 24 : 120;
  mc::add(name + " angles", [] {
    const auto p = pick(2, 4), q = pick(2, 4);
    homogeneous<E>("angles", 2, big, [&](Out& o, double a, double b, double) {
      const V v = make<V>(p, a), w = make<V>(q, b);
      o.num(signed_angle_2D(v, w)); o.num(unsigned_angle_2D(v, w)); o.num(perp_dot(v, w), 1, 1);
      o.vec(perp(v), 1);
    });
  });
  mc::add(name + " affine 2D", [] {
    const auto p = pick(2), t = pick(2);
    const int kind = mc::choose(2);
    homogeneous<E>("affine 2D", 1, sizeof(E) == 4 ? 24 : 200, [&](Out& o, double a, double, double) {
      const V v = make<V>(p, a), w = make<V>(t, a);
      A m; cml::detail::check_or_resize(m, 3, 3);
      if(kind == 0) matrix_translation_2D(m, w);
      else { m.identity(); matrix_rotation_2D(m, E(1.25)); matrix_set_translation_2D(m, w); }
      o.affine(m, 2, 1);
      o.vec(transform_point_2D(m, v), 1); o.vec(transform_vector_2D(m, v), 1);
      o.vec(matrix_get_translation_2D(m), 1);
      A i = m; matrix_invert_RT_only_2D(i); o.affine(i, 2, 1);
      A j = m; matrix_invert_RT(j); o.affine(j, 2, 1);
      o.affine(matrix_concat(m, i), 2, 1); o.affine(inverse(m), 2, 1);
    });
  });
  mc::add(name + " frames", [] {
    const auto p = pick(2, 4);
    homogeneous<E>("frames", 1, big, [&](Out& o, double a, double, double) {
      const V v = make<V>(p, a);
      M m; cml::detail::check_or_resize(m, 2, 2);
      for(auto ord : {axis_order_xy, axis_order_yx}) {
        V x = v, y = v; orthonormal_basis_2D(v, x, y, true, ord); o.vec(x); o.vec(y);
        matrix_rotation_align_2D(m, v, true, ord); o.mat(m);
      }
      E r, t; cartesian_to_polar(v, r, t, E(a * .5)); o.num(r, 1); o.num(t);
      cartesian_to_polar(v, r, t, E(0)); o.num(r, 1); o.num(t);
      V u = v; polar_to_cartesian(u, E(a * 3), E(.7)); o.vec(u, 1);
      M k; cml::detail::check_or_resize(k, 2, 2);
      k.identity(); matrix_skew_symmetric_2D(k, E(a * 5)); o.mat(k, 1);
    });
  });
}

template<class V, class M3, class M, class Q> void spatial(const std::string& name)
{
  using E = value_type_trait_of_t<V>;
  static const int big = sizeof(E) == 4 ? 24 : 120;
  mc::add(name + " products", [] {
    const auto p = pick(3), q = pick(3);
    homogeneous<E>("products", 2, big, [&](Out& o, double a, double b, double) {
      const V v = make<V>(p, a), w = make<V>(q, b);
      o.vec(V(cross(v, w)), 1, 1); o.num(unsigned_angle(v, w)); o.num(triple_product(v, w, v), 2, 1);
      const V e = make<V>({.6, 0, -.8}, 1);
      o.vec(rotate_vector(v, e, E(1.25)), 1);
      M3 k; cml::detail::check_or_resize(k, 3, 3); matrix_skew_symmetric(k, v); o.mat(k, 1);
    });
  });
  mc::add(name + " signed angle", [] {
    const auto p = pick(3), q = pick(3);
    static const ref::vec R[] = {{0, 0, 1}, {1, -1, 2}, {-3, 1, 0}};
    const auto r = R[mc::choose(3)];
    homogeneous<E>("signed angle", 3, sizeof(E) == 4 ? 18 : 120, [&](Out& o, double a, double b, double c) {
      const V v = make<V>(p, a), w = make<V>(q, b), u = make<V>(r, c);
      o.num(signed_angle(v, w, u)); o.num(triple_product(v, w, u), 1, 1, 1);
    });
  });
  mc::add(name + " frames", [] {
    const auto p = pick(3), q = pick(3);
    const axis_order O[] = {axis_order_xyz, axis_order_xzy, axis_order_yzx, axis_order_yxz, axis_order_zxy, axis_order_zyx};
    const axis_order ord = O[mc::choose(6)];
    homogeneous<E>("frames", 2, big, [&](Out& o, double a, double b, double) {
      const V v = make<V>(p, a), w = make<V>(q, b);
      V x = v, y = v, z = v;
      orthonormal_basis(v, w, x, y, z, true, ord); o.vec(x); o.vec(y); o.vec(z);
      M3 m; cml::detail::check_or_resize(m, 3, 3); matrix_rotation_align(m, v, w, true, ord); o.mat(m);
      Q s; quaternion_rotation_align(s, v, w, true, ord); o.quat(s);
    });
  });
  mc::add(name + " aim", [] {
    const auto p = pick(3), t = pick(3);
    static const ref::vec R[] = {{0, 1, 0}, {1, -1, 2}};
    const auto r = R[mc::choose(2)];
    homogeneous<E>("aim", 2, sizeof(E) == 4 ? 18 : 120, [&](Out& o, double a, double b, double) {
      const V eye = make<V>(p, a), target = make<V>(t, a), up = make<V>(r, b);
      M3 m; cml::detail::check_or_resize(m, 3, 3); matrix_rotation_aim_at(m, eye, target, up); o.mat(m);
      Q s; quaternion_rotation_aim_at(s, eye, target, up); o.quat(s);
      M l; cml::detail::check_or_resize(l, 4, 4);
      matrix_look_at_LH(l, eye, target, up); o.affine(l, 3, 1);
      matrix_look_at_RH(l, eye, target, up); o.affine(l, 3, 1);
    });
  });
  mc::add(name + " coordinates", [] {
    const auto p = pick(3, 4);
    homogeneous<E>("coordinates", 1, big, [&](Out& o, double a, double, double) {
      const V v = make<V>(p, a);
      E r, t, f;
      for(int i = 0; i < 3; ++i) for(double eps : {0., .5}) {
        cartesian_to_cylindrical(v, i, r, t, f, E(a * eps)); o.num(r, 1); o.num(t); o.num(f, 1);
        cartesian_to_spherical(v, i, latitude, r, t, f, E(a * eps)); o.num(r, 1); o.num(t); o.num(f);
        cartesian_to_spherical(v, i, colatitude, r, t, f, E(a * eps)); o.num(r, 1); o.num(t); o.num(f);
        V u = v;
        cylindrical_to_cartesian(u, i, E(a * 3), E(.7), E(a * -2)); o.vec(u, 1);
        spherical_to_cartesian(u, i, latitude, E(a * 3), E(.7), E(.2)); o.vec(u, 1);
        spherical_to_cartesian(u, i, colatitude, E(a * 3), E(.7), E(.2)); o.vec(u, 1);
      }
    });
  });
  mc::add(name + " affine", [] {
    const auto p = pick(3), t = pick(3);
    const int kind = mc::choose(3);
    homogeneous<E>("affine", 1, sizeof(E) == 4 ? 24 : 200, [&](Out& o, double a, double, double) {
      const V v = make<V>(p, a), w = make<V>(t, a), axis = make<V>({.6, 0, -.8}, 1);
      M m; cml::detail::check_or_resize(m, 4, 4);
      if(kind == 0) matrix_translation(m, w);
      else if(kind == 1) matrix_affine_transform(m, axis, E(1.25), w);
      else { M3 l; cml::detail::check_or_resize(l, 3, 3); matrix_rotation_axis_angle(l, axis, E(-2)); matrix_affine_transform(m, l, w); }
      o.affine(m, 3, 1);
      o.vec(transform_point(m, v), 1); o.vec(transform_vector(m, v), 1);
      o.vec(matrix_get_translation(m), 1);
      M i = m; matrix_invert_RT_only(i); o.affine(i, 3, 1);
      o.vec(transform_point(i, V(transform_point(m, v))), 1);
      M f = inverse(m); o.affine(f, 3, 1);
      o.num(m.determinant());
    });
  });
}
}
