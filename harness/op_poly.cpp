// Encrypted polynomial evaluation (poly.h) and EvalMod (bootstrap.h).
#include "msg.h"
#ifndef POLY_SET
#define POLY_SET 1
#endif
inline double cheb(const std::vector<double>& c, double x) {   // sum c_k T_k(x), Clenshaw
  long double b1 = 0, b2 = 0; for (int k = (int)c.size() - 1; k >= 1; k--) { long double t = 2 * (long double)x * b1 - b2 + c[k]; b2 = b1; b1 = t; }
  return (double)(x * b1 - b2 + c[0]);
}
// the nested form, made independently: T_{h+i} = 2 T_h T_i - T_{h-i}
inline void nest(std::vector<double> c, double* u) {
  int n = (int)c.size(); if (n == 2) { u[0] = c[0]; u[1] = c[1]; return; }
  int h = n / 2; std::vector<double> a(c.begin(), c.begin() + h), b(c.begin() + h, c.end());
  for (int i = 1; i < h; i++) { b[i] *= 2; a[h - i] -= c[h + i]; }
  nest(a, u); nest(b, u + h);
}
template <int Q, int N, int LD, int DEG> struct Poly_ : LibOp {
  static const int K = DEG == 3 ? 2 : DEG == 7 ? 3 : DEG == 15 ? 4 : DEG == 31 ? 5 : DEG == 63 ? 6 : 7, n = N / 2, QO = Q - K * LD;
  template <int I> using Ev = Box<R_Q_square<2 * (Q - (I < K ? I : K - 1) * LD), N>>;
  Box<R_Q_square<Q, N>> ct; Box<R_Q_square<QO, N>> o; Ev<0> e1; Ev<1> e2; Ev<2> e3; Ev<3> e4; Ev<4> e5; Ev<5> e6; Ev<6> e7;
  Box<int[N]> sk, sq; Box<double[DEG + 1]> cc, u; std::vector<double> c; ref::Slots z; ref::Key s; bool libkey = false, libconv = true;
  template <class F> void keys(F f) {
    f(e1, std::integral_constant<int, 0>()); if constexpr (K > 1) f(e2, std::integral_constant<int, 1>()); if constexpr (K > 2) f(e3, std::integral_constant<int, 2>());
    if constexpr (K > 3) f(e4, std::integral_constant<int, 3>()); if constexpr (K > 4) f(e5, std::integral_constant<int, 4>()); if constexpr (K > 5) f(e6, std::integral_constant<int, 5>()); if constexpr (K > 6) f(e7, std::integral_constant<int, 6>());
  }
  void prepare(Rng& r) override {
    s = gen_key(r, N, 1 + (int)r.below(N)); from_key(s, *sk); ref::Key s2 = ref::mulkey(s, s); from_key(s2, *sq); libkey = r.chance(1, 4); libconv = r.chance(3, 4);
    z = ref::Slots(n); int st = (int)r.below(4);
    for (int i = 0; i < n; i++) z[i] = st == 0 ? 2 * r.unit() - 1 : st == 1 ? (r.chance(1, 2) ? 1.0 : -1.0) : st == 2 ? cos(M_PI * (double)r.below(DEG + 1) / DEG) : (r.chance(1, 3) ? 0.0 : 2 * r.unit() - 1);
    c.assign(DEG + 1, 0); int ct_ = (int)r.below(6); double m = ct_ == 5 ? 1e-4 : 1;
    for (int k = 0; k <= DEG; k++) {
      double v = (2 * r.unit() - 1) * m;
      if (ct_ == 1) v = fabs(v); if (ct_ == 2) v = -fabs(v); if (ct_ == 3 && !r.chance(1, 4)) v = 0; if (ct_ == 4) v = (k & 1) ? v : 0;
      c[k] = v / (DEG > 15 ? DEG / 8. : 1);
    }
    if (r.chance(1, 6)) { for (auto& v : c) v = 0; c[r.below(DEG + 1)] = r.chance(1, 2) ? 1 : -1; }
    for (int k = 0; k <= DEG; k++) (*cc)[k] = c[k];
    if (!libconv) nest(c, *u);
    ref_enc<Q, N>(r, enc_slots(z, ldexpl(1, LD), Q), s, *ct);
    keys([&](auto& e, auto i) { constexpr int q = Q - decltype(i)::value * LD; ref_swk<q, N>(r, s2, s, *e); });
  }
  void prefill(uint64_t g) override { garbage(*o, g); if (libconv) garbage(*u, g + 1); if (libkey) keys([&](auto& e, auto) { garbage(*e, g + 2); }); }
  void run() override {
    if (libconv) convert_frc_tou(*cc, *u, DEG + 1);
    if (libkey) keys([&](auto& e, auto i) { constexpr int q = Q - decltype(i)::value * LD; HEAAN<q, N>::swkgen(*sq, *sk, *e); });
    if constexpr (DEG == 3) eval_poly_deg3<Q, N, LD>(*u, *ct, *e1, *e2, *o);
    if constexpr (DEG == 7) eval_poly_deg7<Q, N, LD>(*u, *ct, *e1, *e2, *e3, *o);
    if constexpr (DEG == 15) eval_poly_deg15<Q, N, LD>(*u, *ct, *e1, *e2, *e3, *e4, *o);
    if constexpr (DEG == 31) eval_poly_deg31<Q, N, LD>(*u, *ct, *e1, *e2, *e3, *e4, *e5, *o);
    if constexpr (DEG == 63) eval_poly_deg63<Q, N, LD>(*u, *ct, *e1, *e2, *e3, *e4, *e5, *e6, *o);
    if constexpr (DEG == 127) eval_poly_deg127<Q, N, LD>(*u, *ct, *e1, *e2, *e3, *e4, *e5, *e6, *e7, *o);
  }
  uint64_t out() override { Digest d; d.ct(*o); d.reals(*u, DEG + 1); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); d.ints(*sk, N); d.ints(*sq, N); d.reals(*cc, DEG + 1); if (!libkey) keys([&](auto& e, auto) { d.ct(*e); }); if (!libconv) d.reals(*u, DEG + 1); return d.h; }
  std::string verify() override {
    if (!is_reduced(*o)) return strf("eval_poly_deg%d<%d,%d,%d>: not reduced", DEG, Q, N, LD);
    ref::Slots w(n); for (int i = 0; i < n; i++) w[i] = cheb(c, (double)z[i].real());
    double e = ref::dist(ref::slots(ref_dec(*o, s), QO, ldexpl(1, LD)), w);
    // worst case, level by level: each rescale rounds, each product is key-switched, coefficients are truncated
    double un = ldexp(1, -LD), rs = N * (0.5 * (1 + norm1(s)) + 0.5) * un, kse = N * ks_bound(N, s) * un * un;
    std::vector<double> uu(DEG + 1); nest(c, uu.data());
    double x = N * 9 * un; std::vector<double> v, er;
    for (int k = 0; k <= DEG; k += 2) { v.push_back(fabs(uu[k]) + fabs(uu[k + 1])); er.push_back(fabs(uu[k + 1]) * x + 2 * un + rs); }
    for (double t = x; v.size() > 1;) {
      t = 4 * t + 2 * t * t + 2 * kse + rs;
      std::vector<double> v2, e2; for (size_t k = 0; k < v.size(); k += 2) { v2.push_back(v[k] + v[k + 1]); e2.push_back(er[k] + (1 + t) * er[k + 1] + t * v[k + 1] + kse + rs); }
      v = v2; er = e2;
    }
    double b = er[0] + DEG * 1e-13; ratio = e / b;
    return e <= b ? "" : strf("eval_poly_deg%d<%d,%d,%d>: slots off by %g, allowed %g", DEG, Q, N, LD, e, b);
  }
};
// EvalMod: slots i + t to t
template <int Q, int N, int LD, int K> struct Evm : LibOp {
  static const int n = N / 2, QO = Q - 12 * LD;
  Box<R_Q_square<Q, N>> ct; Box<R_Q_square<QO, N>> o; Box<int[N]> sk; ref::Slots z, w; ref::Key s; double tm = 0;
  void prepare(Rng& r) override {
    s = gen_key(r, N, 1 + (int)r.below(N)); from_key(s, *sk); z = ref::Slots(n); w = z; int st = (int)r.below(4); double m = ldexp(1, -8 - (int)r.below(6));
    for (int i = 0; i < n; i++) {
      int k = st == 1 ? (r.chance(1, 2) ? K - 1 : 1 - K) : (int)r.below(2 * K - 1) - (K - 1); double t = st == 2 ? 0 : st == 3 ? (r.chance(1, 2) ? m : -m) : (2 * r.unit() - 1) * m;
      z[i] = k + (long double)t; w[i] = t; tm = std::max(tm, fabs(t));
    }
    ref_enc<Q, N>(r, enc_slots(z, ldexpl(1, LD), Q), s, *ct);
  }
  void prefill(uint64_t g) override { garbage(*o, g); }
  void run() override { EvalMod<Q, N, LD, K>(*ct, *sk, *o); }
  uint64_t out() override { Digest d; d.ct(*o); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); d.ints(*sk, N); return d.h; }
  std::string verify() override {
    if (!is_reduced(*o)) return strf("EvalMod<%d,%d,%d,%d>: not reduced", Q, N, LD, K);
    double e = ref::dist(ref::slots(ref_dec(*o, s), QO, ldexpl(1, LD)), w);
    double b = EVM_TOL(tm, N, LD, norm1(s)); ratio = e / b;
    return e <= b ? "" : strf("EvalMod<%d,%d,%d,%d>: slots off by %g, allowed %g (|t| up to %g)", Q, N, LD, K, e, b, tm);
  }
  // next term of the arcsine, (2 pi t)^5 3/40 / 2 pi; the scaled cosine's polynomial approximation (measured: 2^-41.3 at most);
  // rounding and key-switch noise amplified by K and the double angles
  static double EVM_TOL(double t, int n_, int ld, int h) { return pow(2 * M_PI * t, 5) * 3 / 40 / (2 * M_PI) * 1.02 + ldexp(1, -39) + 1536. * n_ * (2 + h) * ldexp(1, -ld); }
};
#define FL (OP_ALLOC | OP_TABLE | OP_OMP | OP_RAND)
#define PLF(Q, N, LD, DEG, C) OPREG("Poly" #DEG "<" #Q "," #N "," #LD ">", "poly", C, FL, Poly_<Q, N, LD, DEG>)
#define EVF(Q, N, LD, K, C) OPREG("EvalMod<" #Q "," #N "," #LD "," #K ">", "poly", C, FL | OP_HEAVY, Evm<Q, N, LD, K>)
#ifdef OPS_SMALL
PLF(100, 4, 25, 3, 40) PLF(130, 4, 25, 7, 100)
#elif POLY_SET == 1
PLF(100, 4, 25, 3, 40) PLF(140, 8, 40, 3, 60) PLF(190, 16, 50, 3, 150) PLF(130, 4, 25, 7, 100) PLF(192, 8, 40, 7, 200) PLF(150, 4, 25, 15, 150) PLF(230, 8, 40, 15, 500) PLF(128, 4, 30, 3, 40)
#elif POLY_SET == 2
PLF(140, 8, 40, 3, 10) PLF(190, 16, 50, 3, 10) PLF(240, 32, 60, 3, 20) PLF(192, 8, 40, 7, 20) PLF(250, 64, 45, 7, 60) PLF(1400, 4, 40, 7, 100) PLF(230, 8, 40, 15, 40) PLF(300, 16, 50, 15, 60)
#elif POLY_SET == 3
PLF(280, 8, 40, 31, 80) PLF(390, 16, 55, 31, 150)
#elif POLY_SET == 4
PLF(330, 8, 40, 63, 150)
#elif POLY_SET == 5
PLF(370, 16, 45, 63, 200)
#elif POLY_SET == 6
PLF(380, 8, 40, 127, 300)
#elif POLY_SET == 7
PLF(410, 4, 45, 127, 250)
#elif POLY_SET == 11
PLF(280, 128, 40, 31, 200) PLF(192, 256, 40, 7, 100) PLF(190, 512, 50, 3, 100) PLF(650, 64, 60, 15, 200)
#elif POLY_SET == 8
EVF(800, 8, 60, 24, 300)
#elif POLY_SET == 9
EVF(790, 16, 59, 24, 400)
#elif POLY_SET == 10
EVF(740, 4, 55, 24, 200)
#endif
