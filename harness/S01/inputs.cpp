#include "inputs.h"

namespace sx {

static void fill(double* p, int n, double a, double b) { for(int i = 0; i < n; ++i) p[i] = a + b * i + ((i * 7) % 5) * .31; }

template<class K> static In<K>* build(int k)
{
  static_assert(sizeof(double) == 8, "");
  In<K>* x = static_cast<In<K>*>(::operator new(sizeof(In<K>)));
  new(&x->raw) Raw;
  Raw& r = x->raw;
  const double s = k + 1;
  fill(r.a2, 2, .7 * s, .4), fill(r.b2, 2, -.3, .9 * s), fill(r.a3, 3, .2 * s, .5), fill(r.b3, 3, -1.1, .6 * s), fill(r.c3, 3, .9, -.8 * s);
  fill(r.a4, 4, .1 * s, .3), fill(r.b4, 4, -.7, .5 * s);
  fill(r.m22, 4, .4 * s, .9), fill(r.n22, 4, -.6, .8 * s), fill(r.n33, 9, -.9, .35 * s), fill(r.m23, 6, .3, .45 * s), fill(r.m32, 6, .8 * s, -.2), fill(r.m34, 12, -.4 * s, .25);
  fill(r.m33, 9, .15 * s, .1), fill(r.m44, 16, .2 * s, .07), fill(r.n44, 16, -.8, .11 * s), fill(r.p44, 16, .1, .05 * s);
  for(int i = 0; i < 3; ++i) r.m33[4 * i] += 2 + k, r.n33[4 * i] -= 3;
  for(int i = 0; i < 4; ++i) r.m44[5 * i] += 3 + k, r.n44[5 * i] -= 4, r.p44[5 * i] += 2;
  for(int i = 0; i < 2; ++i) r.m22[3 * i] += 2, r.n22[3 * i] -= 3;
  // A rotation by .4 + k about (1,2,3).
  {
    const double n = 1 / std::sqrt(14.), u = n, v = 2 * n, w = 3 * n, a = .4 + k, c = std::cos(a), q = std::sin(a), t = 1 - c;
    const double R[9] = {t*u*u+c, t*u*v-q*w, t*u*w+q*v, t*u*v+q*w, t*v*v+c, t*v*w-q*u, t*u*w-q*v, t*v*w+q*u, t*w*w+c};
    for(int i = 0; i < 9; ++i) r.r33[i] = R[i];
  }
  using I = In<K>;
  auto mv = [](auto* at, double* p, auto n) { using V = std::decay_t<decltype(*at)>;
    if constexpr(std::is_same<K, Dyn>::value) new(at) V(decltype(n)::value, p); else new(at) V(p); };
  auto mm = [](auto* at, double* p, int R, int C) { using M = std::decay_t<decltype(*at)>;
    if constexpr(std::is_same<K, Dyn>::value) new(at) M(R, C, p); else new(at) M(p); };
  mv(&x->a2, r.a2, int_c<2>()), mv(&x->b2, r.b2, int_c<2>()), mv(&x->a3, r.a3, int_c<3>()), mv(&x->b3, r.b3, int_c<3>()), mv(&x->c3, r.c3, int_c<3>());
  mv(&x->a4, r.a4, int_c<4>()), mv(&x->b4, r.b4, int_c<4>());
  mm(&x->m22, r.m22, 2, 2), mm(&x->n22, r.n22, 2, 2), mm(&x->m33, r.m33, 3, 3), mm(&x->n33, r.n33, 3, 3), mm(&x->m23, r.m23, 2, 3), mm(&x->m32, r.m32, 3, 2), mm(&x->m34, r.m34, 3, 4);
  mm(&x->m44, r.m44, 4, 4), mm(&x->n44, r.n44, 4, 4), mm(&x->w33, r.r33, 3, 3), mm(&x->p44, r.p44, 4, 4), mm(&x->rot, r.r33, 3, 3);
  static double w44[3][3][16];
  static int kinds = 0;
  double* w = w44[kinds++ % 3][k];
  for(int i = 0; i < 16; ++i) w[i] = 0;
  for(int j = 0; j < 3; ++j) for(int i = 0; i < 3; ++i) w[4 * j + i] = r.r33[3 * i + j]; // col-major row-basis affine
  for(int j = 0; j < 3; ++j) w[4 * j + 3] = 1.5 * j - s;
  w[15] = 1;
  mm(&x->w44, w, 4, 4);
  new(&x->q) Q(.3 * s, -.2, .5, .8);
  new(&x->p) Q(-.4, .6 * s, .1, -.3);
  new(&x->s) QR(.9, .2 * s, -.5, .3);
  new(&x->t) QR(.1, -.7, .4 * s, .6);
  x->x = .35 * s, x->y = -.8, x->z = 1.2 * s, x->g = .6;
  (void) sizeof(I);
  return x;
}

const All* make_inputs(int k)
{
  All* a = new All;
  a->f = build<Fix>(k);
  a->d = build<Dyn>(k);
  a->e = build<Ext>(k);
  return a;
}
} // namespace sx
