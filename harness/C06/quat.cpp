#include "forms.h"
namespace c06 {
// w,x,y,z of the source
template<class S> S comp(int k) { return S(value<S>(k)); }
template<class E, class S, class O, class O2, class X, class X2> void quat()
{
  using Q = cml::quaternion<E, cml::fixed<>, O, X>; using P = cml::quaternion<S, cml::fixed<>, O2, X2>;
  const S w = comp<S>(0), x = comp<S>(1), y = comp<S>(2), z = comp<S>(3);
  S im[3] = {x, y, z}, st[4]; // storage order of the target
  st[O::W] = w; st[O::X] = x; st[O::Y] = y; st[O::Z] = z;
  const S sa[4] = {st[0], st[1], st[2], st[3]}, ia[3] = {x, y, z};
  cml::vector<S, cml::fixed<3>> fv(x, y, z); cml::vector<S, cml::dynamic<>> dv(x, y, z); cml::vector<S, cml::external<3>> ev(im);
  P p; p.put(O2::W, w); p.put(O2::X, x); p.put(O2::Y, y); p.put(O2::Z, z);
  auto ok = [&](const Q& q, const char* n) {
    MC_CHECK(q.w() == E(w) && q.x() == E(x) && q.y() == E(y) && q.z() == E(z), "component", n << ": (w,x,y,z) is (" << q.w() << "," << q.x() << "," << q.y() << "," << q.z() << "), expected (" << w << "," << x << "," << y << "," << z << ")");
    MC_CHECK(q.real() == q.w() && q.size() == 4, "component", n << ": real()");
    for(int i = 0; i < 4; ++i) MC_CHECK(q[i] == E(st[i]) && q.get(i) == q[i] && q.data()[i] == q[i] && q.begin()[i] == q[i], "element", n << ": element " << i << " is " << q[i]);
    MC_CHECK(q.end() - q.begin() == 4, "iterators", n);
    MC_CHECK(p.w() == w && p.x() == x && p.y() == y && p.z() == z && fv[0] == x && dv[1] == y && ev[2] == z && sa[0] == st[0], "source-changed", n);
    MC_TRACE(n); mc::step(); mc::state(mc::Hash()(double(q.w()))(double(q.x()))(double(q.z())));
  };
  Q t(E(41), E(42), E(43), E(44)); using WQ = cml::writable_quaternion<Q>;
  auto as = [&](const Q& r, const char* n) { MC_CHECK(&r == &t, "return", n << ": did not return the assigned quaternion"); ok(t, n); };
  switch(mc::choose(37)) {
  case 0: return ok(Q(st[0], st[1], st[2], st[3]), "quaternion(e,e,e,e)");
  case 1: { Q q{st[0], st[1], st[2], st[3]}; return ok(q, "quaternion{e,e,e,e}"); }
  case 2: { std::initializer_list<S> l = {st[0], st[1], st[2], st[3]}; return ok(Q(l), "quaternion(initializer_list)"); }
  case 3: return ok(Q(st), "quaternion(T[4])");
  case 4: return ok(Q(sa), "quaternion(const T[4])");
  case 5: { const S* q = st; return ok(Q(q), "quaternion(pointer)"); }
  case 6: return ok(Q(fv, w), "quaternion(fixed vector, w)");
  case 7: return ok(Q(w, fv), "quaternion(w, fixed vector)");
  case 8: return ok(Q(dv, w), "quaternion(dynamic vector, w)");
  case 9: return ok(Q(w, dv), "quaternion(w, dynamic vector)");
  case 10: return ok(Q(ev, w), "quaternion(external vector, w)");
  case 11: return ok(Q(w, fv + S(0) * dv), "quaternion(w, vector expression)");
  case 12: return ok(Q(im, w), "quaternion(T[3], w)");
  case 13: return ok(Q(w, im), "quaternion(w, T[3])");
  case 14: return ok(Q(ia, w), "quaternion(const T[3], w)");
  case 15: return ok(Q(w, ia), "quaternion(w, const T[3])");
  case 16: return ok(Q(p), "quaternion(quaternion)");
  case 17: return ok(Q(p + S(0) * p), "quaternion(expression)");
  case 18: { const Q c(p); Q d(c); return ok(Q(std::move(d)), "quaternion(move of copy)"); }
  case 19: return as(t = p, "= quaternion");
  case 20: return as(t = p + S(0) * p, "= expression");
  case 21: return as(t = st, "= T[4]");
  case 22: return as(t = sa, "= const T[4]");
  case 23: return as(t = {st[0], st[1], st[2], st[3]}, "= {e,e,e,e}");
  case 24: return as(t.set(fv, w), "set(fixed vector, w)");
  case 25: return as(t.set(w, fv), "set(w, fixed vector)");
  case 26: return as(t.set(dv, w), "set(dynamic vector, w)");
  case 27: return as(t.set(w, ev), "set(w, external vector)");
  case 28: { Q&& r = std::move(t).set(fv, w); return as(r, "temporary.set(vector, w)"); }
  case 29: { Q&& r = std::move(t).set(w, fv); return as(r, "temporary.set(w, vector)"); }
  case 30: { Q&& r = static_cast<WQ&&>(t) = {st[0], st[1], st[2], st[3]}; return as(r, "temporary = {e,e,e,e}"); }
  case 31: { Q&& r = static_cast<WQ&&>(t) = st; return as(r, "temporary = T[4]"); }
  case 32: { Q&& r = static_cast<WQ&&>(t) = p + S(0) * p; return as(r, "temporary = expression"); }
  case 33: t.w() = E(w); t.x() = E(x); t.y() = E(y); t.z() = E(z); return as(t, "w(), x(), y(), z() =");
  case 34: for(int i = 3; i >= 0; --i) { if(i % 2) t[i] = E(st[i]); else t.put(i, st[i]); } return as(t, "put/operator[]");
  case 35: { const Q c(p); t = c; return as(t, "= same type"); }
  case 36: { Q c(p); t = std::move(c); return as(t, "= moved same type"); }
  }
}
template<class O, class O2> void add(const char* n)
{
  using namespace cml;
  mc::add(std::string("quaternion ") + n, [] {
    switch(mc::choose(4)) {
    case 0: return quat<double, double, O, O2, positive_cross, positive_cross>();
    case 1: return quat<float, double, O, O2, negative_cross, positive_cross>();
    case 2: return quat<double, float, O, O2, positive_cross, negative_cross>();
    default: return quat<int, double, O, O2, negative_cross, negative_cross>();
    }
  });
}
struct R { R() {
  using namespace cml;
  add<real_first, real_first>("real first from real first"); add<imaginary_first, imaginary_first>("imaginary first from imaginary first");
  add<real_first, imaginary_first>("real first from imaginary first"); add<imaginary_first, real_first>("imaginary first from real first");
} } r;
} // namespace c06
