// Bootstrapping: conventional (bootstrap_test.cpp) and EvalRound (evalqI_test.cpp), also repeated.
#include "boot.h"
#ifndef BOOT_SET
#define BOOT_SET 1
#endif
template <int LOGN, int G, int LDT, int ROUND, int TIMES, int QF = 70> struct Boot : LibOp {
  static const int N = 1 << LOGN, n = N / 2, L = (LOGN - 1) / G, LQ = 60, LD = 50, LB = 60, K = 24, LS = ROUND ? 60 : 50;
  static const int Q3 = QF + L * LS, Q2 = Q3 + 12 * LB, Q1 = Q2 + L * LDT;   // after EvalMod, after CoeffToSlot, raised
  Box<R_Q_square<LQ, N>> ct, again; Box<R_Q_square<QF, N>> o; Box<int[N]> sk; ref::Slots z; ref::Key s;
  struct Tmp { R_Q_square<Q1, N> raised, cts[2]; R_Q_square<Q2, N> rs[2]; R_Q_square<Q3, N> em[2], qI[2], stc; R_Q_square<QF, N> r; };
  Box<Tmp> t;
  void prepare(Rng& r) override {
    s = gen_key(r, N, 1 + (int)r.below(std::min(N, 40))); from_key(s, *sk); z = gen_slots(r, n, r.chance(1, 4) ? 0.01 : 1);
    ref_enc<LQ, N>(r, enc_slots(z, ldexpl(1, LD), LQ), s, *ct);
  }
  void prefill(uint64_t g) override { garbage(*o, g); garbage(*t, g + 1); garbage(*again, g + 2); }
  void once(const R_Q_square<LQ, N>& in) {
    mod_raise<LQ, Q1, N>(in, t->raised);
    CoeffToSlot<Q1, LOGN, LDT, G>(t->raised, *sk, t->cts);
    for (int i = 0; i < 2; i++) { RS<Q1, Q2, N>(t->cts[i], t->rs[i]); EvalMod<Q2, N, LB, K>(t->rs[i], *sk, t->em[i]); }
    if (ROUND) {
      for (int i = 0; i < 2; i++) { resize(t->rs[i], t->qI[i]); t->qI[i] -= t->em[i]; }
      SlotToCoeff<Q3, LOGN, LS, G>(t->qI[0], t->qI[1], *sk, t->stc);
      RS<Q3, QF, N>(t->stc, t->r); resize(t->raised, *o); *o -= t->r;
    } else { SlotToCoeff<Q3, LOGN, LS, G>(t->em[0], t->em[1], *sk, t->stc); RS<Q3, QF, N>(t->stc, *o); }
  }
  void run() override {
    once(*ct);
    for (int k = 1; k < TIMES; k++) { resize(*o, *again); once(*again); }
  }
  uint64_t out() override { Digest d; d.ct(*o); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); d.ints(*sk, N); return d.h; }
  std::string verify() override {
    if (!is_reduced(*o)) return strf("Boot<%d,%d,%d,%d,%d>: not reduced", LOGN, G, LDT, ROUND, TIMES);
    double k = ks_bound(N, s), e = ref::dist(ref::slots(ref_dec(*o, s), QF, ldexpl(1, LD)), z);
    double ec = cts_err(N, LOGN, LDT, G, 0, (double)K * N, k, LB) + rs_slots(N, s, LB), tm = ldexp(supn(z) + 1e-3, -10) + ec;
    double em = pow(2 * M_PI * tm, 5) * 3 / 40 / (2 * M_PI) * 1.02 + ldexp(1, -39) + 1536. * N * (2 + norm1(s)) * ldexp(1, -LB);
    double st = ROUND ? stc_err(N, LOGN, LS, G, em, K, k, LB) : stc_err(N, LOGN, LS, G, em + ec, tm, k, LB);
    double b = (9. * N * ldexp(1, -LB) + TIMES * (st + rs_slots(N, s, LB))) * ldexp(1, LB - LD);
    b = std::min(b, N * TIMES * ldexp(1, ROUND || LDT == 60 ? -28 : -17));   // what the method achieves, plus 3 bits or more
    ratio = e / b;
    return e <= b ? "" : strf("Boot<LOGN %d, grouping %d, CoeffToSlot scale 2^%d, %s, %d times>: slots off by %g, allowed %g", LOGN, G, LDT, ROUND ? "EvalRound" : "conventional", TIMES, e, b);
  }
};
#define FL (OP_ALLOC | OP_TABLE | OP_OMP | OP_RAND | OP_HEAVY)
#define BF(LN, G, D, M, T, QF, C) OPREG("Boot<" #LN "," #G "," #D "," #M "," #T "," #QF ">", "boot", C, FL, Boot<LN, G, D, M, T, QF>)
// final moduli chosen so that the several moduli of the chain also are whole numbers of words
#if BOOT_SET == 0
BF(2, 1, 30, 1, 1, 70, 60)
#elif BOOT_SET == 1
BF(3, 2, 60, 0, 1, 78, 100)      // 128 bits after EvalMod
#elif BOOT_SET == 2
BF(3, 2, 24, 1, 2, 92, 100)      // raised to 896 bits
#elif BOOT_SET == 3
BF(4, 3, 60, 1, 1, 116, 100)     // 896 bits after CoeffToSlot
#elif BOOT_SET == 4
BF(4, 3, 26, 1, 1, 64, 100)
#elif BOOT_SET == 5
BF(4, 1, 40, 0, 2, 70, 100)
#elif BOOT_SET == 6
BF(5, 2, 28, 1, 1, 70, 100)
#elif BOOT_SET == 7
BF(3, 1, 22, 1, 1, 76, 100)      // raised to 960 bits
#elif BOOT_SET == 8
BF(5, 4, 60, 0, 1, 128, 100)
#endif
