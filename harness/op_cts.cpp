// CoeffToSlot and SlotToCoeff (bootstrap.h).
#include "boot.h"
#ifndef CTS_SET
#define CTS_SET 1
#endif
template <int LOGQ, int LOGN, int LD, int G> struct Cts : LibOp {
  static const int N = 1 << LOGN, n = N / 2, L = (LOGN - 1) / G, SC = LOGQ - L * LD - 6;
  typedef R_Q_square<LOGQ, N> Ct;
  Box<Ct> ct; Box<Ct[2]> o; Box<int[N]> sk; std::vector<long double> c; ref::Key s;
  void prepare(Rng& r) override {
    s = gen_key(r, N, gen_h(r, N)); from_key(s, *sk); c = gen_coeffs(r, N); std::vector<long double> m = c; for (auto& x : m) x *= ldexpl(1, SC);
    ref_enc<LOGQ, N>(r, ref::poly_of(m, LOGQ), s, *ct);
  }
  void prefill(uint64_t g) override { garbage(*o, g); }
  void run() override { CoeffToSlot<LOGQ, LOGN, LD, G>(*ct, *sk, *o); }
  uint64_t out() override { Digest d; d.ct((*o)[0]); d.ct((*o)[1]); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); d.ints(*sk, N); return d.h; }
  std::string verify() override {
    ref::Slots w0(n), w1(n); halves(c, w0, w1);
    for (int k = 0; k < 2; k++) {
      if (!is_reduced((*o)[k])) return strf("CoeffToSlot<%d,%d,%d,%d>: not reduced", LOGQ, LOGN, LD, G);
      double e = ref::dist(ref::slots(ref_dec((*o)[k], s), LOGQ, ldexpl(1, SC + L * LD)), k ? w1 : w0), b = cts_err(N, LOGN, LD, G, ldexp(9. * N, -SC), N, ks_bound(N, s), SC);
      ratio = std::max(ratio, e / b);
      if (!(e <= b)) return strf("CoeffToSlot<%d,%d,%d,%d>: slots of half %d off by %g, allowed %g", LOGQ, LOGN, LD, G, k, e, b);
    }
    return "";
  }
};
template <int LOGQ, int LOGN, int LD, int G> struct Stc : LibOp {
  static const int N = 1 << LOGN, n = N / 2, L = (LOGN - 1) / G, SC = LOGQ - L * LD - 6 - LOGN;
  typedef R_Q_square<LOGQ, N> Ct;
  Box<Ct> a, b, o; Box<int[N]> sk; std::vector<long double> c; ref::Key s;
  void prepare(Rng& r) override {
    s = gen_key(r, N, gen_h(r, N)); from_key(s, *sk); c = gen_coeffs(r, N); ref::Slots w0(n), w1(n); halves(c, w0, w1);
    ref_enc<LOGQ, N>(r, enc_slots(w0, ldexpl(1, SC), LOGQ), s, *a); ref_enc<LOGQ, N>(r, enc_slots(w1, ldexpl(1, SC), LOGQ), s, *b);
  }
  void prefill(uint64_t g) override { garbage(*o, g); }
  void run() override { SlotToCoeff<LOGQ, LOGN, LD, G>(*a, *b, *sk, *o); }
  uint64_t out() override { Digest d; d.ct(*o); return d.h; }
  uint64_t in() override { Digest d; d.ct(*a); d.ct(*b); d.ints(*sk, N); return d.h; }
  std::string verify() override {
    if (!is_reduced(*o)) return strf("SlotToCoeff<%d,%d,%d,%d>: not reduced", LOGQ, LOGN, LD, G);
    double e = coeff_err(ref_dec(*o, s), LOGQ, ldexpl(1, SC + L * LD), c), bd = stc_err(N, LOGN, LD, G, ldexp(9. * N, -SC), 1, ks_bound(N, s), SC); ratio = e / bd;
    return e <= bd ? "" : strf("SlotToCoeff<%d,%d,%d,%d>: coefficients off by %g, allowed %g", LOGQ, LOGN, LD, G, e, bd);
  }
};
// there and back again
template <int LOGQ, int LOGN, int LD, int G, int G2> struct CtsStc : LibOp {
  static const int N = 1 << LOGN, n = N / 2, L = (LOGN - 1) / G, L2 = (LOGN - 1) / G2, QM = LOGQ - L * LD, SC = QM - L2 * LD - 6 - LOGN;
  Box<R_Q_square<LOGQ, N>> ct; Box<R_Q_square<LOGQ, N>[2]> t; Box<R_Q_square<QM, N>[2]> u; Box<R_Q_square<QM, N>> o; Box<int[N]> sk; std::vector<long double> c; ref::Key s;
  void prepare(Rng& r) override {
    s = gen_key(r, N, gen_h(r, N)); from_key(s, *sk); c = gen_coeffs(r, N); std::vector<long double> m = c; for (auto& x : m) x *= ldexpl(1, SC);
    ref_enc<LOGQ, N>(r, ref::poly_of(m, LOGQ), s, *ct);
  }
  void prefill(uint64_t g) override { garbage(*o, g); garbage(*t, g + 1); garbage(*u, g + 2); }
  void run() override {
    CoeffToSlot<LOGQ, LOGN, LD, G>(*ct, *sk, *t);
    RS<LOGQ, QM, N>((*t)[0], (*u)[0]); RS<LOGQ, QM, N>((*t)[1], (*u)[1]);
    SlotToCoeff<QM, LOGN, LD, G2>((*u)[0], (*u)[1], *sk, *o);
  }
  uint64_t out() override { Digest d; d.ct(*o); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); d.ints(*sk, N); return d.h; }
  std::string verify() override {
    double e = coeff_err(ref_dec(*o, s), QM, ldexpl(1, SC + L2 * LD), c), k = ks_bound(N, s);
    double m = cts_err(N, LOGN, LD, G, ldexp(9. * N, -SC), N, k, SC) + rs_slots(N, s, SC), b = stc_err(N, LOGN, LD, G2, m, 1 + m, k, SC); ratio = e / b;
    return e <= b ? "" : strf("SlotToCoeff after CoeffToSlot <%d,%d,%d,%d/%d>: coefficients off by %g, allowed %g", LOGQ, LOGN, LD, G, G2, e, b);
  }
};
#define FL (OP_ALLOC | OP_TABLE | OP_OMP | OP_RAND)
#define CF(Q, LN, D, G, C) OPREG("CoeffToSlot<" #Q "," #LN "," #D "," #G ">", "cts", C, FL, Cts<Q, LN, D, G>)
#define SF(Q, LN, D, G, C) OPREG("SlotToCoeff<" #Q "," #LN "," #D "," #G ">", "cts", C, FL, Stc<Q, LN, D, G>)
#define BF(Q, LN, D, G, G2, C) OPREG("CtsStc<" #Q "," #LN "," #D "," #G "," #G2 ">", "cts", C, FL, CtsStc<Q, LN, D, G, G2>)
#if CTS_SET == 0
CF(90, 3, 30, 2, 60) SF(90, 3, 30, 2, 60)
#elif CTS_SET == 1
CF(80, 2, 30, 1, 20) CF(120, 3, 30, 1, 100) CF(100, 3, 40, 2, 70) CF(150, 4, 30, 1, 300) CF(110, 4, 40, 3, 250)
SF(80, 2, 30, 1, 30) SF(120, 3, 30, 1, 150) SF(100, 3, 40, 2, 120) SF(110, 4, 40, 3, 450) BF(140, 3, 35, 2, 1, 250)
#elif CTS_SET == 2
CF(128, 3, 40, 2, 30) CF(128, 3, 40, 1, 30) CF(220, 4, 50, 1, 60) CF(120, 4, 50, 3, 60) CF(240, 5, 40, 1, 100) CF(160, 5, 40, 2, 100) CF(110, 5, 40, 4, 200) SF(110, 5, 40, 4, 300) SF(160, 5, 40, 2, 200) SF(240, 5, 40, 1, 200)
#elif CTS_SET == 4
CF(240, 9, 40, 2, 300) CF(360, 8, 40, 1, 500) SF(280, 7, 40, 2, 200) CF(160, 9, 40, 4, 900) SF(160, 9, 40, 4, 900) CF(240, 10, 40, 3, 900)
#else
SF(220, 4, 50, 1, 120) SF(120, 4, 50, 3, 120) CF(200, 7, 45, 3, 400) SF(200, 7, 45, 3, 600) BF(230, 3, 50, 2, 2, 100) BF(180, 4, 40, 3, 3, 150) BF(260, 5, 40, 2, 4, 300) BF(260, 5, 40, 4, 2, 300) CF(100, 4, 22, 1, 60) CF(320, 6, 40, 1, 200)
#endif
