#include "../quat.h"
namespace q01 {
using namespace rq;

inline Q pick(const double* v, int n) { Q q; for(int i = 0; i < 4; ++i) q[i] = v[mc::choose(n)]; return q; }
inline const double A[] = {-1, 0, 2, 1, -2};
inline Q pick3() { return pick(A, mc::thorough() ? 5 : 3); }
inline uint64_t h(const Q& q) { return mc::Hash()(q.w)(q.x)(q.y)(q.z); }

// The quaternion of one element: reading, norms, conjugates, inverses, units.
template<class T> void single()
{
  using E = cml::value_type_trait_of_t<T>;
  static const double V[] = {-3, -1, 0, 1, 2};
  const Q q = pick(V, 5);
  const double n = norm(q), t = tol<T>();
  T a = make<T>(q);
  const T& c = a;
  MC_CHECK(same(read(c), q), "components", q << " reads " << read(c));
  MC_CHECK(double(c.real()) == q.w && double(cml::real(c)) == q.w, "real", q << " real " << c.real());
  auto im = c.imaginary();
  auto im2 = cml::imaginary(c);
  for(int i = 0; i < 3; ++i) MC_CHECK(double(im[i]) == q[i + 1] && double(im2[i]) == q[i + 1], "imaginary", q << " imaginary " << im);
  MC_CHECK(im.size() == 3 && c.size() == 4, "size", im.size());
  MC_CHECK(double(c.norm()) == n && double(cml::norm(c)) == n, "norm", q << " norm " << c.norm());
  MC_CHECK(double(c.length_squared()) == n && double(cml::length_squared(c)) == n, "squared length", q << " " << c.length_squared());
  MC_CHECK(ref::near(double(c.length()), std::sqrt(n), t) && ref::near(double(cml::length(c)), std::sqrt(n), t), "length", q << " length " << c.length());
  MC_CHECK(ref::near(double(cml::dot(c, c)), n, t), "dot", q << " dot " << cml::dot(c, c));
  MC_CHECK(same(read(c.conjugate()), conj(q)) && same(read(cml::conjugate(c)), conj(q)), "conjugate", q << " conjugate " << read(c.conjugate()));
  MC_CHECK(same(read(cml::conjugate(cml::conjugate(c))), q), "conjugate twice", q);
  MC_CHECK(same(read(cml::identity(c)), Q{1, 0, 0, 0}), "identity", read(cml::identity(c)));
  MC_CHECK(same(read(-c), -1. * q), "negation", read(-c));
  MC_CHECK(same(read(T(c * cml::conjugate(c))), Q{n, 0, 0, 0}), "q conj(q)", q << " " << read(T(c * cml::conjugate(c))));
  MC_CHECK(same(read(a), q), "argument changed", q << " became " << read(a));
  mc::step(12);
  mc::state(h(q));
  if(n != 0) {
    MC_CHECK(near(read(c.inverse()), inv(q), t) && near(read(cml::inverse(c)), inv(q), t), "inverse", q << " inverse " << read(c.inverse()));
    MC_CHECK(near(read(T(c * cml::inverse(c))), Q{1, 0, 0, 0}, 4 * t) && near(read(T(cml::inverse(c) * c)), Q{1, 0, 0, 0}, 4 * t), "q inverse(q)", q << " " << read(T(c * cml::inverse(c))));
    MC_CHECK(near(read(cml::inverse(cml::inverse(c))), q, 4 * t), "inverse twice", q << " " << read(cml::inverse(cml::inverse(c))));
    MC_CHECK(near(read(cml::normalize(c)), (1 / std::sqrt(n)) * q, t) && near(read(c.normalize()), (1 / std::sqrt(n)) * q, t), "normalize", q << " " << read(cml::normalize(c)));
    MC_CHECK(ref::near(double(cml::length(cml::normalize(c))), 1, t), "unit length", q << " " << cml::length(cml::normalize(c)));
    T b = a; T& rb = b.normalize(); MC_CHECK(&rb == &b && near(read(b), (1 / std::sqrt(n)) * q, t), "normalize in place", q << " " << read(b));
    T d = a; d.inverse(); MC_CHECK(near(read(d), inv(q), t), "inverse in place", q << " " << read(d));
    MC_CHECK(near(read(T(a).inverse()), inv(q), t) && near(read(T(a).normalize()), (1 / std::sqrt(n)) * q, t), "temporary", q);
    mc::step(8);
  }
  T e = a; T& re = e.conjugate(); MC_CHECK(&re == &e && same(read(e), conj(q)), "conjugate in place", q << " " << read(e));
  MC_CHECK(same(read(T(a).conjugate()), conj(q)), "temporary", q);
  T f = a; f.identity(); MC_CHECK(same(read(f), Q{1, 0, 0, 0}), "identity in place", read(f));
  T g = a; g *= g; MC_CHECK(same(read(g), product<T>(q, q)), "square in place", q << " squared " << read(g));
  MC_CHECK(same(read(a), q), "argument changed", q << " became " << read(a));
  mc::step(5);
}

// Quaternions of any magnitude: scaling by a power of two is exact, so norms,
// products, inverses and units of s q are those of q, scaled.
template<class T> void scaled()
{
  using E = cml::value_type_trait_of_t<T>;
  static const int X[] = {-30, 30, -8, 8, sizeof(E) == 4 ? -55 : -480, sizeof(E) == 4 ? 55 : 480};
  const int k = X[mc::choose(6)];
  const double s = std::ldexp(1., k);
  const Q q = pick3(), p = s * q;
  const double n = norm(q), t = tol<T>();
  if(n == 0) return;
  T a = make<T>(p);
  const T& c = a;
  const auto E1 = [&](double x, double want, double unit) { return ref::near(x / unit, want, t); };
  const auto EQ = [&](const Q& x, const Q& want, double unit) { return near((1 / unit) * x, want, 4 * t); };
  const double ss = s * s;
  MC_CHECK(E1(double(c.norm()), n, ss) && E1(double(cml::norm(c)), n, ss) && E1(double(cml::length_squared(c)), n, ss) && E1(double(cml::dot(c, c)), n, ss), "norm", p << " norm " << c.norm());
  MC_CHECK(E1(double(c.length()), std::sqrt(n), s) && E1(double(cml::length(c)), std::sqrt(n), s), "length", p << " length " << c.length());
  MC_CHECK(same(read(cml::conjugate(c)), conj(p)), "conjugate", p);
  MC_CHECK(EQ(read(cml::normalize(c)), (1 / std::sqrt(n)) * q, 1) && EQ(read(c.normalize()), (1 / std::sqrt(n)) * q, 1), "normalize", p << " " << read(cml::normalize(c)));
  MC_CHECK(EQ(read(cml::inverse(c)), inv(q), 1 / s) && EQ(read(c.inverse()), inv(q), 1 / s), "inverse", p << " " << read(cml::inverse(c)));
  T b = a; b.normalize();
  MC_CHECK(EQ(read(b), (1 / std::sqrt(n)) * q, 1), "normalize in place", p << " " << read(b));
  T d = a; d.inverse();
  MC_CHECK(EQ(read(d), inv(q), 1 / s), "inverse in place", p << " " << read(d));
  const Q o = {1, -2, 0, 1};
  MC_CHECK(EQ(read(c * make<T>(o)), product<T>(q, o), s) && EQ(read(make<T>(o) * c), product<T>(o, q), s), "product", p << " " << read(c * make<T>(o)));
  MC_CHECK(EQ(read(c * c), product<T>(q, q), ss), "square", p << " " << read(c * c));
  T f = a; f *= c;
  MC_CHECK(EQ(read(f), product<T>(q, q), ss), "square in place", p << " " << read(f));
  MC_CHECK(near(read(c * cml::inverse(c)), Q{1, 0, 0, 0}, 8 * t), "q inverse(q)", p << " " << read(c * cml::inverse(c)));
  MC_CHECK(same(read(a), p), "argument changed", p << " became " << read(a));
  mc::step(12);
  mc::state(mc::Hash()(k).raw(h(q)));
}

// All pairs: product, norms multiply, conjugate reverses, dot, linear parts.
template<class T, class U> void pairs()
{
  const Q p = pick3(), q = pick3();
  const Q want = product<T>(p, q);
  const T a = make<T>(p);
  const U b = make<U>(q);
  const Q got = read(a * b);
  MC_CHECK(same(got, want), "product", p << " " << q << " = " << got << " instead of " << want);
  static_assert(std::is_same_v<cml::order_type_trait_of_t<decltype(a * b)>, cml::order_type_trait_of_t<T>>, "order");
  static_assert(std::is_same_v<cml::cross_type_trait_of_t<decltype(a * b)>, cml::cross_type_trait_of_t<T>>, "convention");
  static_assert(std::is_same_v<cml::value_type_trait_of_t<decltype(a * b)>, std::common_type_t<cml::value_type_trait_of_t<T>, cml::value_type_trait_of_t<U>>>, "element type");
  if constexpr(sizeof(cml::value_type_trait_of_t<T>) != sizeof(cml::value_type_trait_of_t<U>)) {
    // Coefficients of the wider operand that the narrower type cannot hold:
    // nothing is rounded to it.  All sums are exact in the wider type.
    const double u = 1 + std::ldexp(1., -40);
    const bool wide_left = sizeof(cml::value_type_trait_of_t<T>) == 8;
    const T aw = make<T>((wide_left ? u : 1) * p);
    const U bw = make<U>((wide_left ? 1 : u) * q);
    MC_CHECK(same(read(aw * bw), u * want), "mixed precision", p << " " << q << " " << read(aw * bw) << " instead of " << u * want);
    MC_CHECK(double(cml::dot(aw, bw)) == u * dot(p, q), "mixed precision dot", p << " " << q << " " << cml::dot(aw, bw));
    MC_CHECK(same(read(aw + bw), (wide_left ? u * p + q : p + u * q)), "mixed precision sum", p << " " << q << " " << read(aw + bw));
    MC_CHECK(same(read(aw - bw), (wide_left ? u * p - q : p - u * q)), "mixed precision difference", p << " " << q << " " << read(aw - bw));
    mc::step(4);
  }
  MC_CHECK(double(cml::norm(a * b)) == norm(p) * norm(q), "norm", p << " " << q << " norm " << cml::norm(a * b));
  MC_CHECK(same(read(cml::conjugate(a * b)), read(cml::conjugate(b) * cml::conjugate(a))), "conjugate", p << " " << q);
  MC_CHECK(double(cml::dot(a, b)) == dot(p, q) && double(cml::dot(b, a)) == dot(p, q), "dot", p << " " << q << " " << cml::dot(a, b));
  // Any value category and expression as an operand.
  MC_CHECK(same(read(T(a) * b), want) && same(read(a * U(b)), want) && same(read(T(a) * U(b)), want), "temporaries", p << " " << q);
  MC_CHECK(same(read((a + a) * (b - 3. * b)), -4. * want), "expressions", p << " " << q << " " << read((a + a) * (b - 3. * b)));
  MC_CHECK(same(read(cml::conjugate(a) * b), product<T>(conj(p), q)) && same(read(a * cml::conjugate(b)), product<T>(p, conj(q))), "conjugate operand", p << " " << q);
  if constexpr(std::is_same_v<T, U>) {
    T c = a; T& r = (c *= b); MC_CHECK(&r == &c && same(read(c), want), "assignment", p << " " << q << " " << read(c));
    T d = b; d = a * d; MC_CHECK(same(read(d), want), "into an operand", p << " " << q << " " << read(d));
    T e = a; e = e * b; MC_CHECK(same(read(e), want), "into an operand", p << " " << q << " " << read(e));
    T f = a; f = cml::conjugate(f) * f; MC_CHECK(same(read(f), Q{norm(p), 0, 0, 0}), "into an operand", p << " " << read(f));
    mc::step(4);
  }
  else {
    T c = a; c *= b; MC_CHECK(same(read(c), want), "assignment", p << " " << q << " " << read(c));
    mc::step(1);
  }
  MC_CHECK(same(read(a), p) && same(read(b), q), "argument changed", p << " " << q);
  if(norm(p) != 0 && norm(q) != 0) {
    const Q i = read(cml::inverse(a * b)), j = read(cml::inverse(b) * cml::inverse(a));
    MC_CHECK(near(i, j, 4 * std::fmax(tol<T>(), tol<U>())), "inverse of a product", p << " " << q << ": " << i << " and " << j);
    // Division: (a b) b^-1 = a.
    MC_CHECK(near(read((a * b) * cml::inverse(b)), p, 16 * std::fmax(tol<T>(), tol<U>())), "cancel", p << " " << q);
    mc::step(2);
  }
  mc::step(9);
  mc::state(h(want));
}

// Associativity and bilinearity on triples of a small alphabet.
template<class T> void triples()
{
  static const Q P[] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {-1, 0, 0, 0}, {0, -1, 0, 0}, {0, 0, -1, 0}, {0, 0, 0, -1},
    {1, 2, 3, 4}, {-2, 1, 0, 3}, {0, 0, 0, 0}, {2, -1, -1, 1}};
  const Q p = P[mc::choose(12)], q = P[mc::choose(12)], r = P[mc::choose(12)];
  const T a = make<T>(p), b = make<T>(q), c = make<T>(r);
  const Q want = product<T>(product<T>(p, q), r);
  MC_CHECK(same(read((a * b) * c), want), "left", p << q << r << " " << read((a * b) * c));
  MC_CHECK(same(read(a * (b * c)), want), "right", p << q << r << " " << read(a * (b * c)));
  MC_CHECK(same(read(a * b * c), want), "chain", p << q << r << " " << read(a * b * c));
  MC_CHECK(same(read((a + b) * c), product<T>(p, r) + product<T>(q, r)), "distributes", p << q << r);
  MC_CHECK(same(read(a * (b - c)), product<T>(p, q) - product<T>(p, r)), "distributes", p << q << r);
  MC_CHECK(same(read((2. * a) * (b * 3.)), 6. * product<T>(p, q)), "scalars", p << q);
  T s = a;
  s += b * c;
  MC_CHECK(same(read(s), p + product<T>(q, r)), "accumulate", p << q << r << " " << read(s));
  s -= c * b;
  MC_CHECK(same(read(s), p + product<T>(q, r) - product<T>(r, q)), "accumulate", p << q << r << " " << read(s));
  s *= a;
  s /= 2.;
  MC_CHECK(same(read(s), .5 * product<T>(p + product<T>(q, r) - product<T>(r, q), p)), "accumulate", p << q << r << " " << read(s));
  mc::step(10);
  mc::state(h(want));
}

// Convention and order only rename: rp(a,b) = rn(b,a), coefficients by name.
template<class E> void conventions()
{
  using namespace cml;
  using IP = quaternion<E, fixed<>, imaginary_first, positive_cross>;
  using IN = quaternion<E, fixed<>, imaginary_first, negative_cross>;
  using RP = quaternion<E, fixed<>, real_first, positive_cross>;
  using RN = quaternion<E, fixed<>, real_first, negative_cross>;
  const Q p = pick3(), q = pick3();
  const Q ip = read(make<IP>(p) * make<IP>(q)), in = read(make<IN>(q) * make<IN>(p)), rp = read(make<RP>(p) * make<RP>(q)), rn = read(make<RN>(q) * make<RN>(p));
  MC_CHECK(same(ip, in) && same(ip, rp) && same(ip, rn), "conventions", p << " " << q << ": " << ip << in << rp << rn);
  mc::step(4);
  mc::state(h(ip));
}

// Rotations act by conjugation: v -> q v q^-1, as the linear map by components.
template<class T> void conjugation()
{
  const Q q = pick3();
  if(norm(q) == 0) return;
  const Q v = {0, double(mc::choose(3) - 1), double(mc::choose(3) - 1), double(mc::choose(3) - 1)};
  const T a = make<T>(q), x = make<T>(v);
  const Q got = read(a * x * cml::inverse(a)), want = product<T>(product<T>(q, v), inv(q));
  MC_CHECK(near(got, want, 8 * tol<T>()), "conjugation", q << " " << v << " " << got);
  MC_CHECK(std::fabs(got.w) <= 8 * tol<T>() && ref::near(norm(got), norm(v), 64 * tol<T>()), "isometry", q << " " << v << " " << got);
  mc::step(2);
  mc::state(h(got));
}
} // namespace q01
