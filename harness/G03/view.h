// Look-at view transforms.
#pragma once
#include "../geo.h"

namespace g03 {
using namespace geo;

inline vec point(bool wide)
{
  vec p;
  for(int i = 0; i < 3; ++i) p.push_back(wide ? mc::choose(4) - 1 : mc::choose(3) - 1);
  return p;
}
inline bool degenerate(const vec& eye, const vec& target, const vec& up)
{
  return ref::len(ref::cross(ref::add(target, eye, -1), up)) < 1e-12;
}
// The last row of the map, which some shapes leave out.
inline mat full(mat a)
{
  if(a.r == 4) return a;
  mat o = mat::identity(4);
  for(int i = 0; i < 3; ++i) for(int j = 0; j < 4; ++j) o(i, j) = a(i, j);
  return o;
}
inline vec apply(const mat& a, const vec& p, double w) { return ref::mul(a, vec{p[0], p[1], p[2], w}); }
template<class E> void check(const mat& V, bool right, const vec& eye, const vec& target, const vec& up, const std::string& form, double scale = 1)
{
  const double t = 30 * tol<E>() * scale;
  auto arg = [&] { std::ostringstream os; os << " eye " << eye << " target " << target << " up " << up << ": " << V; return os.str(); };
  const std::string s = form + (right ? " RH " : " LH ");
  const double d = ref::len(ref::add(target, eye, -1));
  MC_CHECK(ref::near(part(V, 3, 0, 1, 4), part(mat::identity(4), 3, 0, 1, 4), 0), s + "last row", arg());
  MC_CHECK(rigid(part(V, 0, 0, 3, 3), t), s + "rigid", arg());
  MC_CHECK(ref::near(apply(V, eye, 1), vec{0, 0, 0, 1}, t), s + "eye at the origin", arg());
  MC_CHECK(ref::near(apply(V, target, 1), vec{0, 0, right ? -d : d, 1}, t), s + "target on the depth axis", arg());
  const vec u = apply(V, up, 0);
  MC_CHECK(std::fabs(u[0]) <= t * (1 + ref::len(up)) && u[1] > 0, s + "up is up", arg());
  mc::state(ref::hash(V));
}
// A matrix with its own storage.
template<class E, class S, class B, class L> struct Own;
template<class E, int R, int C, class B, class L> struct Own<E, fixed<R, C>, B, L> { matrix<E, fixed<R, C>, B, L> m; Own(int, int) {} };
template<class E, class B, class L> struct Own<E, dynamic<>, B, L> { matrix<E, dynamic<>, B, L> m; Own(int r, int c) : m(r, c) {} };
template<class E, int R, int C, class B, class L> struct Own<E, external<R, C>, B, L> { E buf[R * C]; matrix<E, external<R, C>, B, L> m; Own(int, int) : m(&buf[0]) {} };
template<class E, class B, class L> struct Own<E, external<>, B, L> { std::vector<E> buf; matrix<E, external<>, B, L> m; Own(int r, int c) : buf(size_t(r * c)), m(buf.data(), r, c) {} };

template<class E, class S, class B, class L, class P = E> void views_f(int r, int c)
{
  const bool wide = mc::thorough();
  const vec eye = point(wide), target = point(wide), up = point(false);
  if(degenerate(eye, target, up)) { mc::state(1); return; }
  const bool right = mc::choose(2);
  Own<E, S, B, L> m(r, c), m2(r, c);
  m.m.fill(E(7)), m2.m.fill(E(-7));
  const auto e = v3<P>(eye), t = v3<P>(target), u = v3<P>(up);
  mc::step(2);
  matrix_look_at(m.m, e, t, u, right ? right_handed : left_handed);
  check<E>(full(colmap(m.m)), right, eye, target, up, "look_at", std::is_same<P, float>::value ? tol<float>() / tol<E>() : 1);
  if(right) matrix_look_at_RH(m2.m, e, t, u); else matrix_look_at_LH(m2.m, e, t, u);
  MC_CHECK(ref::near(ref::readm(m.m), ref::readm(m2.m), 0), "named form", "eye " << eye << " target " << target << " up " << up << ": " << ref::readm(m2.m));
}
// Points of every storage kind, and expressions; scaled scenes.
template<class E, class B, class L> void storages()
{
  const vec eye{1, -2, .5}, up0 = choose_dir();
  const vec dir = choose_dir();
  static const double scales[] = {1, 1e-3, 1e4};
  const double sc = scales[mc::choose(3)];
  const vec target = ref::add(eye, dir, sc);
  const vec up = ref::scale(up0, mc::choose(2) ? 1e-2 : 50);
  const double sine = ref::len(ref::cross(ref::unit(dir), ref::unit(up)));
  if(sine < 1e-9) { mc::state(1); return; }
  const bool right = mc::choose(2);
  E eb[3], tb[3], ub[3];
  for(int i = 0; i < 3; ++i) eb[i] = E(eye[size_t(i)]), tb[i] = E(target[size_t(i)]), ub[i] = E(up[size_t(i)]);
  // Element rounding of target - eye is magnified in short directions.
  const double cond = (1 / sine) * (1 + std::fabs(3 / sc)) * (1 + sc);
  matrix<E, fixed<4,4>, B, L> m;
  m.fill(E(3));
  auto run = [&](const auto& e, const auto& t, const auto& u) {
    mc::step();
    matrix_look_at(m, e, t, u, right ? right_handed : left_handed);
    check<E>(colmap(m), right, eye, target, up, "look_at", cond);
  };
  const int k = mc::choose(5);
  if(k == 0) run(vector<E, dynamic<>>(3, &eb[0]), vector<E, dynamic<>>(3, &tb[0]), vector<E, dynamic<>>(3, &ub[0]));
  else if(k == 1) run(vector<const E, external<3>>(&eb[0]), vector<const E, external<>>(tb, 3), vector<E, external<3>>(&ub[0]));
  else if(k == 2) run(v3<E>(eye), v3<E>(eye) + E(sc) * v3<E>(dir), -(-v3<E>(up)));
  else if(k == 3) { const vector<E, fixed<3>> e = v3<E>(eye), t = v3<E>(target); vector<E, dynamic<>> u(3, &ub[0]); run(e, t, u); }
  else run(v3<E>(eye), v3<E>(target), v3<E>(up));
}
template<class E, class B, class L> void sizes()
{
  const int r = mc::choose(6), c = mc::choose(6), bad = mc::choose(4), n = bad == 3 ? 3 : mc::choose(6);
  matrix<E, dynamic<>, B, L> m(r, c);
  vector<E, dynamic<>> v[3] = {vector<E, dynamic<>>(3), vector<E, dynamic<>>(3), vector<E, dynamic<>>(3)};
  if(bad < 3) v[bad].resize(n);
  for(int k = 0; k < 3; ++k) for(int i = 0; i < v[k].size(); ++i) v[k][i] = E(i == k);
  const int nr = is_row<decltype(m)>() ? 4 : 3, nc = is_row<decltype(m)>() ? 3 : 4;
  const bool small = r < nr || c < nc, odd = n != 3;
  std::string got = "none";
  mc::step();
  try { matrix_look_at_LH(m, v[0], v[1], v[2]); }
  catch(const vector_size_error&) { got = "vector"; }
  catch(const incompatible_vector_size_error&) { got = "vector"; }
  catch(const minimum_matrix_size_error&) { got = "matrix"; }
  catch(const std::exception& e) { got = e.what(); }
  mc::state(mc::Hash()(r)(c)(bad)(n));
  if(small && odd) MC_CHECK(got == "matrix" || got == "vector", "size rule", r << "x" << c << " point " << bad << " of size " << n << ": " << got);
  else MC_CHECK(got == (small ? "matrix" : odd ? "vector" : "none"), "size rule", r << "x" << c << " point " << bad << " of size " << n << ": " << got);
}
} // namespace g03
