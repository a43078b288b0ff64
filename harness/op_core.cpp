// Keys, encryption, key switching, rescaling and ciphertext arithmetic (core.h, linear_transform.h, bootstrap.h mod_raise).
#include "kit.h"
#ifndef CORE_SET
#define CORE_SET 1
#endif

template <int N> struct Keygen : LibOp {
  Box<int[N]> s; int h = 1;
  void prepare(Rng& r) override { h = r.chance(1, 4) ? N : gen_h(r, N); }
  void prefill(uint64_t g) override { garbage(*s, g); }
  void run() override { HEAAN<64, N>::keygen(h, *s); }
  uint64_t out() override { Digest d; d.ints(*s, N); return d.h; }
  uint64_t in() override { return (uint64_t)h; }
  std::string verify() override {
    int n = 0;
    for (int i = 0; i < N; i++) { if ((*s)[i] < -1 || (*s)[i] > 1) return strf("keygen(%d) of degree %d: coefficient %d is %d", h, N, i, (*s)[i]); n += (*s)[i] != 0; }
    return n == h ? "" : strf("keygen(%d) of degree %d: %d nonzero coefficients", h, N, n);
  }
};
template <int Q, int N> struct Enc : LibOp {
  Box<R_Q<Q, N>> pt; Box<int[N]> s; Box<R_Q_square<Q, N>> ct; ref::Poly m; ref::Key k;
  void prepare(Rng& r) override { k = gen_key(r, N, gen_h(r, N)); m = gen_poly(r, N, Q, gen_style(r)); from_ref(m, *pt); from_key(k, *s); }
  void prefill(uint64_t g) override { garbage(*ct, g); }
  void run() override { HEAAN<Q, N>::enc(*pt, *s, *ct); }
  uint64_t out() override { Digest d; d.ct(*ct); return d.h; }
  uint64_t in() override { Digest d; d.rq(*pt); d.ints(*s, N); return d.h; }
  std::string verify() override {
    if (!is_reduced(*ct)) return strf("enc<%d,%d>: not reduced", Q, N);
    double e = ref::maxabs(ref::sub(ref_dec(*ct, k), m, Q), Q); ratio = e / 8;
    return e <= 8 ? "" : strf("enc<%d,%d>: decrypts to the plaintext with error %g > 8", Q, N, e);
  }
};
template <int Q, int N> struct Dec : LibOp {
  Box<R_Q<Q, N>> pt; Box<int[N]> s; Box<R_Q_square<Q, N>> ct; ref::Poly a, b; ref::Key k;
  void prepare(Rng& r) override {
    k = gen_key(r, N, gen_h(r, N)); a = gen_poly(r, N, Q, gen_style(r)); b = gen_poly(r, N, Q, gen_style(r));
    from_ref(a, ct->data[0]); from_ref(b, ct->data[1]); from_key(k, *s);
  }
  void prefill(uint64_t g) override { garbage(*pt, g); }
  void run() override { HEAAN<Q, N>::dec(*ct, *s, *pt); }
  uint64_t out() override { Digest d; d.rq(*pt); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); d.ints(*s, N); return d.h; }
  std::string verify() override { return to_ref(*pt) == ref::dec(a, b, k, Q) ? "" : strf("dec<%d,%d> is not c0 + s c1", Q, N); }
};
// the library's own chain: keygen, enc, dec
template <int Q, int N> struct EncDec : LibOp {
  Box<R_Q<Q, N>> pt, pt2; Box<int[N]> s; Box<R_Q_square<Q, N>> ct; ref::Poly m; int h = 1;
  void prepare(Rng& r) override { h = gen_h(r, N); m = gen_poly(r, N, Q, gen_style(r)); from_ref(m, *pt); }
  void prefill(uint64_t g) override { garbage(*ct, g); garbage(*pt2, g + 1); garbage(*s, g + 2); }
  void run() override { HEAAN<Q, N>::keygen(h, *s); HEAAN<Q, N>::enc(*pt, *s, *ct); HEAAN<Q, N>::dec(*ct, *s, *pt2); }
  uint64_t out() override { Digest d; d.ints(*s, N); d.ct(*ct); d.rq(*pt2); return d.h; }
  uint64_t in() override { Digest d; d.rq(*pt); return d.h + h; }
  std::string verify() override {
    ref::Key k = to_key(*s, N); int n = norm1(k);
    for (int x : k) if (x < -1 || x > 1) return strf("keygen<%d>: not ternary", N);
    if (n != h) return strf("keygen<%d>(%d): weight %d", N, h, n);
    if (!is_reduced(*ct) || !ref::reduced(to_ref(*pt2), Q)) return strf("enc/dec<%d,%d>: not reduced", Q, N);
    double e = ref::maxabs(ref::sub(to_ref(*pt2), m, Q), Q); ratio = e / 8;
    return e <= 8 ? "" : strf("dec(enc(m))<%d,%d> is off by %g > 8", Q, N, e);
  }
};
template <int Q, int N> struct SwkGen : LibOp {
  Box<int[N]> f, t; Box<R_Q_square<2 * Q, N>> swk; ref::Key fr, to;
  void prepare(Rng& r) override {
    to = gen_key(r, N, gen_h(r, N)); fr = gen_key(r, N, gen_h(r, N));
    switch (r.below(4)) {
      case 0: fr = ref::mulkey(to, to); break;
      case 1: for (auto& x : fr) x = (int)r.below(2 * N + 1) - N; break;
      case 2: fr = ref::automorph(to, ref::pow5((long)r.below(N / 2), N)); break;
    }
    from_key(fr, *f); from_key(to, *t);
  }
  void prefill(uint64_t g) override { garbage(*swk, g); }
  void run() override { HEAAN<Q, N>::swkgen(*f, *t, *swk); }
  uint64_t out() override { Digest d; d.ct(*swk); return d.h; }
  uint64_t in() override { Digest d; d.ints(*f, N); d.ints(*t, N); return d.h; }
  std::string verify() override {
    if (!is_reduced(*swk)) return strf("swkgen<%d,%d>: not reduced", Q, N);
    double e = ref::maxabs(ref::sub(ref_dec(*swk, to), ref::shl(key_poly(fr, Q), Q, 2 * Q), 2 * Q), 2 * Q); ratio = e / 8;
    return e <= 8 ? "" : strf("swkgen<%d,%d>: decrypts to 2^%d s_from with error %g > 8", Q, N, Q, e);
  }
};
// ------------------------------------------------------------------ key switching
template <int Q, int N> struct Ks : LibOp {     // mode 0 ks, 1 rotation, 2 conjugation
  int mode; int off = 0; bool libkey = false; double emax = 8;
  Box<R_Q_square<Q, N>> ct, in_, o; Box<R_Q_square<2 * Q, N>> swk; Box<int[N]> kf, kt; ref::Key fr, to; ref::Poly want; uint64_t inh = 0;
  Ks(int m) : mode(m) {}
  void prepare(Rng& r) override {
    to = gen_key(r, N, gen_h(r, N)); libkey = r.chance(1, 3);
    long e = 1;
    if (mode == 0) { fr = r.chance(1, 2) ? ref::mulkey(to, to) : gen_key(r, N, gen_h(r, N)); }
    else {
      if (mode == 1) { off = gen_off(r, N); e = ref::pow5(off, N); } else e = 2 * N - 1;
      fr = ref::automorph(to, e);
    }
    ref::Poly a = gen_poly(r, N, Q, gen_style(r)), b = gen_poly(r, N, Q, gen_style(r));
    from_ref(a, ct->data[0]); from_ref(b, ct->data[1]);
    if (mode == 0) want = ref::dec(a, b, fr, Q); else want = ref::automorph(ref::dec(a, b, to, Q), Q, e);
    emax = ref_swk<Q, N>(r, fr, to, *swk); if (libkey) emax = 8;
    from_key(fr, *kf); from_key(to, *kt);
  }
  void prefill(uint64_t g) override { if (mode == 0) { memcpy((void*)&*o, (void*)&*ct, sizeof *ct); } else garbage(*o, g); if (libkey) garbage(*swk, g + 1); }
  void run() override {
    if (libkey) HEAAN<Q, N>::swkgen(*kf, *kt, *swk);
    if (mode == 0) HEAAN<Q, N>::ks(*swk, *o);
    else if (mode == 1) rot_ct<Q, N>(*ct, off, *swk, *o);
    else conj<Q, N>(*ct, *swk, *o);
  }
  uint64_t out() override { Digest d; d.ct(*o); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); if (!libkey) d.ct(*swk); d.ints(*kf, N); d.ints(*kt, N); return d.h; }
  std::string verify() override {
    static const char* nm[] = {"ks", "rot_ct", "conj"};
    if (!is_reduced(*o)) return strf("%s<%d,%d>: not reduced", nm[mode], Q, N);
    double e = ref::maxabs(ref::sub(ref_dec(*o, to), want, Q), Q), b = ks_bound(N, to, emax); ratio = e / b;
    return e <= b ? "" : strf("%s<%d,%d> (offset %d): error %g, allowed %g", nm[mode], Q, N, off, e, b);
  }
};
template <int Q, int N> struct KeySwitch : Ks<Q, N> { KeySwitch() : Ks<Q, N>(0) {} };
template <int Q, int N> struct RotCt : Ks<Q, N> { RotCt() : Ks<Q, N>(1) {} };
template <int Q, int N> struct ConjCt : Ks<Q, N> { ConjCt() : Ks<Q, N>(2) {} };
// automorphisms of plaintexts and keys
template <int Q, int N> struct Autom : LibOp {
  Box<R_Q<Q, N>> A, R, C; Box<int[N]> s, s1, sr, sc; ref::Poly a; ref::Key k; int off = 0;
  void prepare(Rng& r) override { a = gen_poly(r, N, Q, gen_style(r)); k = gen_key(r, N, gen_h(r, N)); off = gen_off(r, N); from_ref(a, *A); from_key(k, *s); }
  void prefill(uint64_t g) override { garbage(*R, g); garbage(*C, g + 1); garbage(*s1, g); garbage(*sr, g); garbage(*sc, g); }
  void run() override { rot<Q, N>(*A, *R, off); conj<Q, N>(*A, *C); rot<N>(*s, *s1); rot<N>(*s, *sr, off); conj<N>(*s, *sc); }
  uint64_t out() override { Digest d; d.rq(*R); d.rq(*C); d.ints(*s1, N); d.ints(*sr, N); d.ints(*sc, N); return d.h; }
  uint64_t in() override { Digest d; d.rq(*A); d.ints(*s, N); return d.h; }
  std::string verify() override {
    long e = ref::pow5(off, N);
    if (to_ref(*R) != ref::automorph(a, Q, e)) return strf("rot<%d,%d> by %d of a plaintext", Q, N, off);
    if (to_ref(*C) != ref::automorph(a, Q, -1)) return strf("conj<%d,%d> of a plaintext", Q, N);
    if (to_key(*s1, N) != ref::automorph(k, 5)) return strf("rot<%d> of a key", N);
    if (to_key(*sr, N) != ref::automorph(k, e)) return strf("rot<%d> by %d of a key", N, off);
    if (to_key(*sc, N) != ref::automorph(k, -1)) return strf("conj<%d> of a key", N);
    return "";
  }
};
template <int Fr, int To, int N> struct Rescale : LibOp {
  Box<R_Q_square<Fr, N>> a; Box<R_Q_square<To, N>> b; ref::Poly x, y;
  void prepare(Rng& r) override {
    x = gen_poly(r, N, Fr, gen_style(r)); y = gen_poly(r, N, Fr, gen_style(r));
    if (r.chance(1, 2) && Fr > To) {     // around the rounding boundary: low part just below, at and above one half
      const int L = (Fr + 63) / 64, k = Fr - To;
      for (int i = 0; i < N; i++) {
        int t = (int)r.below(4);
        for (int b = 0; b < k; b++) {
          int v = t == 0 ? b == k - 1 : t == 1 ? b != k - 1 : t == 2 ? (b == k - 1 || b == 0) : 1;
          uint64_t m = 1ull << (b % 64);
          if (v) x[(size_t)i * L + b / 64] |= m; else x[(size_t)i * L + b / 64] &= ~m;
        }
      }
    }
    from_ref(x, a->data[0]); from_ref(y, a->data[1]);
  }
  void prefill(uint64_t g) override { garbage(*b, g); }
  void run() override { RS<Fr, To, N>(*a, *b); }
  uint64_t out() override { Digest d; d.ct(*b); return d.h; }
  uint64_t in() override { Digest d; d.ct(*a); return d.h; }
  std::string verify() override {
    for (int i = 0; i < 2; i++) {
      ref::Poly o = to_ref(b->data[i]);
      if (!ref::reduced(o, To)) return strf("RS<%d,%d,%d>: not reduced", Fr, To, N);
      double e = ref::rs_err(i ? y : x, Fr, o, To); ratio = e / 0.5;
      if (e > 0.5) return strf("RS<%d,%d,%d>: component %d is off by %g units (nearest: at most 0.5)", Fr, To, N, i, e);
    }
    return "";
  }
};
template <int Fr, int To, int N> struct Resize : LibOp {
  Box<R_Q_square<Fr, N>> a; Box<R_Q_square<To, N>> b; ref::Poly x, y; bool viaraise = false;
  void prepare(Rng& r) override { x = gen_poly(r, N, Fr, gen_style(r)); y = gen_poly(r, N, Fr, gen_style(r)); viaraise = r.chance(1, 2); from_ref(x, a->data[0]); from_ref(y, a->data[1]); }
  void prefill(uint64_t g) override { garbage(*b, g); }
  void run() override { if (viaraise) mod_raise<Fr, To, N>(*a, *b); else resize<Fr, To, N>(*a, *b); }
  uint64_t out() override { Digest d; d.ct(*b); return d.h; }
  uint64_t in() override { Digest d; d.ct(*a); return d.h; }
  std::string verify() override {
    for (int i = 0; i < 2; i++)
      if (to_ref(b->data[i]) != ref::lift(i ? y : x, Fr, To)) return strf("%s<%d,%d,%d>: component %d is not the same signed value", viaraise ? "mod_raise" : "resize", Fr, To, N, i);
    return "";
  }
};
template <int Q, int N> struct MulCt : LibOp {
  Box<R_Q_square<Q, N>> a, b, c; Box<R_Q_square<2 * Q, N>> evk; Box<int[N]> sk, sq; ref::Key s; ref::Poly want; bool libkey = false, square = false; double emax = 8;
  void prepare(Rng& r) override {
    s = gen_key(r, N, gen_h(r, N)); libkey = r.chance(1, 3); square = r.chance(1, 5);
    ref::Key s2 = ref::mulkey(s, s); ref::Poly m1, m2;
    auto mk = [&](R_Q_square<Q, N>& ct) {
      if (r.chance(1, 3)) ref_enc<Q, N>(r, gen_poly(r, N, Q, gen_style(r)), s, ct, gen_style(r));
      else { from_ref(gen_poly(r, N, Q, gen_style(r)), ct.data[0]); from_ref(gen_poly(r, N, Q, gen_style(r)), ct.data[1]); }
      return ref_dec(ct, s);
    };
    m1 = mk(*a); m2 = mk(*b); if (square) m2 = m1;
    want = ref::mul(m1, m2, Q);
    emax = ref_swk<Q, N>(r, s2, s, *evk); if (libkey) emax = 8; from_key(s, *sk); from_key(s2, *sq);
  }
  void prefill(uint64_t g) override { garbage(*c, g); if (libkey) garbage(*evk, g + 1); }
  void run() override { if (libkey) HEAAN<Q, N>::swkgen(*sq, *sk, *evk); Mul<Q, N>(*a, square ? *a : *b, *evk, *c); }
  uint64_t out() override { Digest d; d.ct(*c); return d.h; }
  uint64_t in() override { Digest d; d.ct(*a); d.ct(*b); if (!libkey) d.ct(*evk); d.ints(*sk, N); d.ints(*sq, N); return d.h; }
  std::string verify() override {
    if (!is_reduced(*c)) return strf("Mul<%d,%d>: not reduced", Q, N);
    double e = ref::maxabs(ref::sub(ref_dec(*c, s), want, Q), Q), bd = ks_bound(N, s, emax); ratio = e / bd;
    return e <= bd ? "" : strf("Mul<%d,%d>: decrypts to the product with error %g, allowed %g", Q, N, e, bd);
  }
};
// a seeded sequence of ciphertext operations over three live ciphertexts
template <int Q, int N> struct CtProg : LibOp {
  static const int R = 3, MAXI = 7;
  struct Ins { int k, d, a, b; uint64_t c; };
  Box<R_Q_square<Q, N>> reg[R], log[MAXI], init[R], tmp; Box<R_Q<Q, N>> pt; Box<R_Q_square<2 * Q, N>> evk, rk, ck; Ins ins[MAXI]; int n = 0, off = 1; ref::Key s; ref::Poly p; bool libkey = false; double emax[3];
  Box<int[N]> sk, s2, sr, sc;
  void prepare(Rng& r) override {
    s = gen_key(r, N, gen_h(r, N)); p = gen_poly(r, N, Q, gen_style(r)); from_ref(p, *pt); off = r.chance(1, 3) ? gen_off(r, N) : (int)r.below(N / 2); libkey = r.chance(1, 4);
    ref::Key k2 = ref::mulkey(s, s), kr = ref::automorph(s, ref::pow5(off, N)), kc = ref::automorph(s, -1);
    from_key(s, *sk); from_key(k2, *s2); from_key(kr, *sr); from_key(kc, *sc);
    double e1 = ref_swk<Q, N>(r, k2, s, *evk), e2 = ref_swk<Q, N>(r, kr, s, *rk), e3 = ref_swk<Q, N>(r, kc, s, *ck); emax[0] = libkey ? 8 : e1; emax[1] = libkey ? 8 : e2; emax[2] = libkey ? 8 : e3;
    for (int i = 0; i < R; i++) ref_enc<Q, N>(r, gen_poly(r, N, Q, gen_style(r)), s, *init[i], gen_style(r));
    n = 2 + (int)r.below(MAXI - 1);
    for (int i = 0; i < n; i++) {
      ins[i].k = (int)r.below(9); ins[i].d = (int)r.below(R); ins[i].a = (int)r.below(R); ins[i].b = (int)r.below(R);
      ins[i].c = r.chance(1, 3) ? r.next() : r.chance(1, 2) ? r.below(5) : 1ull << r.below(64);
    }
  }
  void prefill(uint64_t g) override {
    for (int i = 0; i < R; i++) memcpy((void*)&*reg[i], (void*)&*init[i], sizeof *init[i]);
    for (int i = 0; i < MAXI; i++) garbage(*log[i], g + i);
    garbage(*tmp, g + 50);
    if (libkey) { garbage(*evk, g + 51); garbage(*rk, g + 52); garbage(*ck, g + 53); }
  }
  void run() override {
    if (libkey) { HEAAN<Q, N>::swkgen(*s2, *sk, *evk); HEAAN<Q, N>::swkgen(*sr, *sk, *rk); HEAAN<Q, N>::swkgen(*sc, *sk, *ck); }
    for (int i = 0; i < n; i++) {
      Ins& x = ins[i]; R_Q_square<Q, N>&d = *reg[x.d], &a = *reg[x.a], &b = *reg[x.b];
      switch (x.k) {
        case 0: *tmp = a; if (x.a == x.b) *tmp += *tmp; else *tmp += b; break;
        case 1: *tmp = a; if (x.a == x.b) *tmp -= *tmp; else *tmp -= b; break;
        case 2: *tmp = a; *tmp *= x.c; break;
        case 3: *tmp = a; *tmp *= *pt; break;
        case 4: case 5: Mul<Q, N>(a, b, *evk, *tmp); break;
        case 6: rot_ct<Q, N>(a, off, *rk, *tmp); break;
        case 7: conj<Q, N>(a, *ck, *tmp); break;
        case 8: *tmp = a; (*tmp)[0] += (*pt); (*tmp)[0][0] -= (*pt)[N - 1]; break;
      }
      d = *tmp; *log[i] = *tmp;
    }
  }
  uint64_t out() override { Digest d; for (int i = 0; i < n; i++) d.ct(*log[i]); for (int i = 0; i < R; i++) d.ct(*reg[i]); return d.h; }
  uint64_t in() override { Digest d; d.rq(*pt); if (!libkey) { d.ct(*evk); d.ct(*rk); d.ct(*ck); } d.ints(*sk, N); return d.h; }
  std::string verify() override {
    static const char* nm[] = {"+=", "-=", "*= integer", "*= plaintext", "Mul", "Mul", "rot_ct", "conj", "plaintext += and constant -="};
    ref::Poly m[R]; for (int i = 0; i < R; i++) m[i] = ref_dec(*init[i], s);
    for (int i = 0; i < n; i++) {
      Ins& x = ins[i]; ref::Poly e; double bound = 0;
      switch (x.k) {
        case 0: e = ref::add(m[x.a], m[x.b], Q); break;
        case 1: e = ref::sub(m[x.a], m[x.b], Q); break;
        case 2: e = ref::muli(m[x.a], x.c, Q); break;
        case 3: e = ref::mul(m[x.a], p, Q); break;
        case 4: case 5: e = ref::mul(m[x.a], m[x.b], Q); bound = ks_bound(N, s, emax[0]); break;
        case 6: e = ref::automorph(m[x.a], Q, ref::pow5(off, N)); bound = ks_bound(N, s, emax[1]); break;
        case 7: e = ref::automorph(m[x.a], Q, -1); bound = ks_bound(N, s, emax[2]); break;
        case 8: {
          e = ref::add(m[x.a], p, Q); ref::Poly c(e.size(), 0); const int L = (Q + 63) / 64;
          for (int j = 0; j < L; j++) c[j] = p[(size_t)(N - 1) * L + j];
          e = ref::sub(e, c, Q); break;
        }
      }
      if (!is_reduced(*log[i])) return strf("ciphertext operation %d (%s)<%d,%d>: not reduced", i, nm[x.k], Q, N);
      ref::Poly got = ref_dec(*log[i], s); double d = ref::maxabs(ref::sub(got, e, Q), Q);
      if (bound > 0) ratio = std::max(ratio, d / bound);
      if (d > bound) return strf("ciphertext operation %d (%s)<%d,%d>: error %g, allowed %g", i, nm[x.k], Q, N, d, bound);
      m[x.d] = got;
    }
    for (int i = 0; i < R; i++) if (ref_dec(*reg[i], s) != m[i]) return strf("ciphertext %d changed by an operation on another one", i);
    return "";
  }
};

#define SH2(T, Q, N, G, C, F) OPREG(#T "<" #Q "," #N ">", G, C, F, T<Q, N>)
#define SH3(T, Q, P, N, G, C, F) OPREG(#T "<" #Q "," #P "," #N ">", G, C, F, T<Q, P, N>)
#define AT (OP_ALLOC | OP_TABLE | OP_OMP)
#if CORE_SET == 1 || CORE_SET == 4      // keys and encryption
OPREG("Keygen<8>", "enc", 1, OP_RAND, Keygen<8>) OPREG("Keygen<16>", "enc", 1, OP_RAND, Keygen<16>)
OPREG("Keygen<64>", "enc", 1, OP_RAND, Keygen<64>) OPREG("Keygen<256>", "enc", 1, OP_RAND, Keygen<256>) OPREG("Keygen<2>", "enc", 1, OP_RAND, Keygen<2>)
OPREG("Keygen<4096>", "enc", 3, OP_RAND, Keygen<4096>)
#define ENCF(Q, N) SH2(Enc, Q, N, "enc", 1, OP_RAND | OP_OMP) SH2(Dec, Q, N, "enc", 1, OP_OMP) SH2(EncDec, Q, N, "enc", 2, OP_RAND | OP_OMP) SH2(SwkGen, Q, N, "enc", 2, OP_RAND | OP_OMP)
ENCF(61, 8) ENCF(64, 8) ENCF(65, 16) ENCF(32, 16) ENCF(100, 8) ENCF(128, 32) ENCF(191, 4) ENCF(250, 16) ENCF(600, 8) ENCF(1450, 4) ENCF(20, 64) ENCF(63, 128) ENCF(96, 16) ENCF(30, 8)
#endif
#if CORE_SET == 2 || CORE_SET == 4      // key switching and rescaling
#define KSF(Q, N, C) SH2(KeySwitch, Q, N, "ks", C, AT | OP_RAND) SH2(RotCt, Q, N, "ks", C, AT | OP_RAND) SH2(ConjCt, Q, N, "ks", C, AT | OP_RAND)
KSF(30, 8, 6) KSF(32, 16, 7) KSF(61, 8, 8) KSF(64, 8, 8) KSF(65, 16, 10) KSF(96, 8, 10) KSF(100, 8, 10) KSF(128, 4, 10) KSF(191, 8, 15) KSF(300, 4, 25) KSF(40, 32, 10) KSF(600, 4, 60) KSF(64, 2, 5)
SH2(Autom, 61, 8, "ks", 1, 0) SH2(Autom, 64, 64, "ks", 1, 0) SH2(Autom, 130, 16, "ks", 1, 0) SH2(Autom, 600, 32, "ks", 2, 0) SH2(Autom, 64, 512, "ks", 3, 0) SH2(Autom, 65, 4, "ks", 1, 0)
#define RSF(F, T, N) SH3(Rescale, F, T, N, "ks", 1, 0)
RSF(64, 64, 8) RSF(65, 64, 8) RSF(128, 64, 8) RSF(127, 64, 8) RSF(129, 64, 8) RSF(192, 64, 8) RSF(100, 50, 8) RSF(200, 100, 8) RSF(250, 190, 8) RSF(256, 192, 8) RSF(256, 191, 8) RSF(600, 300, 8)
RSF(1450, 1400, 4) RSF(1450, 725, 4) RSF(63, 20, 8) RSF(64, 63, 8) RSF(130, 2, 8) RSF(640, 639, 8) RSF(320, 256, 8) RSF(193, 128, 8) RSF(61, 61, 8) RSF(2900, 1450, 4) RSF(704, 640, 8) RSF(700, 636, 8) RSF(128, 127, 8) RSF(129, 65, 16)
#endif
#if CORE_SET == 3 || CORE_SET == 4      // ciphertext arithmetic
#define RZF(F, T, N) SH3(Resize, F, T, N, "arith", 1, 0)
RZF(60, 200, 8) RZF(64, 128, 8) RZF(64, 64, 8) RZF(65, 640, 8) RZF(200, 60, 8) RZF(128, 64, 8) RZF(640, 65, 8) RZF(61, 1450, 4) RZF(1450, 61, 4) RZF(127, 128, 8) RZF(128, 127, 8) RZF(192, 191, 8) RZF(63, 64, 8) RZF(129, 192, 8) RZF(33, 62, 8)
#define MUF(Q, N, C) SH2(MulCt, Q, N, "arith", C, AT | OP_RAND)
MUF(30, 8, 10) MUF(61, 8, 12) MUF(64, 8, 12) MUF(65, 16, 20) MUF(96, 8, 14) MUF(100, 4, 12) MUF(128, 8, 20) MUF(191, 4, 20) MUF(300, 4, 40) MUF(64, 32, 25) MUF(600, 4, 120) MUF(128, 16, 40)
#define PRF(Q, N, C) SH2(CtProg, Q, N, "arith", C, AT | OP_RAND)
PRF(61, 8, 30) PRF(64, 8, 30) PRF(65, 8, 30) PRF(100, 4, 30) PRF(128, 8, 50) PRF(192, 4, 50) PRF(250, 8, 90) PRF(40, 16, 30)
#endif
#if CORE_SET == 6                        // larger degrees
#define ENCF(Q, N) SH2(Enc, Q, N, "enc", 80, OP_RAND | OP_OMP) SH2(Dec, Q, N, "enc", 80, OP_OMP) SH2(EncDec, Q, N, "enc", 80, OP_RAND | OP_OMP) SH2(SwkGen, Q, N, "enc", 80, OP_RAND | OP_OMP)
ENCF(64, 1024) ENCF(300, 512) ENCF(1200, 64) ENCF(62, 4096) ENCF(129, 2048) ENCF(2000, 16)
#define KSF(Q, N, C) SH2(KeySwitch, Q, N, "ks", C, AT | OP_RAND) SH2(RotCt, Q, N, "ks", C, AT | OP_RAND) SH2(ConjCt, Q, N, "ks", C, AT | OP_RAND)
KSF(64, 256, 20) KSF(200, 128, 30) KSF(62, 1024, 40) KSF(1000, 16, 60) KSF(320, 512, 120) KSF(100, 2048, 120)
SH2(Autom, 61, 1024, "ks", 5, 0) SH2(Autom, 64, 8192, "ks", 20, 0) SH2(Autom, 1200, 256, "ks", 5, 0) SH2(Autom, 40, 65536, "ks", 90, 0)
#define RSF(F, T, N) SH3(Rescale, F, T, N, "ks", 4, 0)
RSF(1200, 1150, 128) RSF(640, 600, 512) RSF(128, 64, 4096) RSF(3000, 100, 16)
#define RZF(F, T, N) SH3(Resize, F, T, N, "arith", 4, 0)
RZF(60, 1300, 512) RZF(64, 128, 8192) RZF(1000, 128, 512) RZF(2000, 1999, 16)
#define MUF(Q, N, C) SH2(MulCt, Q, N, "arith", C, AT | OP_RAND)
MUF(62, 512, 40) MUF(200, 128, 60) MUF(1000, 16, 100) MUF(128, 1024, 120) MUF(320, 64, 60)
#define PRF(Q, N, C) SH2(CtProg, Q, N, "arith", C, AT | OP_RAND)
PRF(128, 128, 100) PRF(61, 512, 120) PRF(400, 32, 120)
#endif
#if CORE_SET == 7                        // a few of each, larger degrees (for the interleavings of C02)
OPREG("Keygen<4096>", "enc", 60, OP_RAND, Keygen<4096>) SH2(Enc, 64, 512, "enc", 60, OP_RAND | OP_OMP) SH2(EncDec, 129, 256, "enc", 60, OP_RAND | OP_OMP) SH2(Dec, 62, 1024, "enc", 60, OP_OMP) SH2(Enc, 62, 2048, "enc", 90, OP_RAND | OP_OMP)
SH2(SwkGen, 64, 256, "enc", 60, OP_RAND | OP_OMP) SH2(RotCt, 64, 128, "ks", 60, AT | OP_RAND) SH2(KeySwitch, 200, 64, "ks", 60, AT | OP_RAND) SH2(MulCt, 64, 128, "arith", 60, AT | OP_RAND) SH2(CtProg, 64, 64, "arith", 90, AT | OP_RAND)
SH2(Autom, 64, 4096, "ks", 40, 0) SH3(Rescale, 640, 600, 512, "ks", 30, 0) SH3(Resize, 65, 300, 2048, "arith", 30, 0)
#endif
#if CORE_SET == 5                        // a few of each
OPREG("Keygen<8>", "enc", 1, OP_RAND, Keygen<8>) OPREG("Keygen<64>", "enc", 1, OP_RAND, Keygen<64>)
SH2(Enc, 64, 8, "enc", 1, OP_RAND | OP_OMP) SH2(Enc, 130, 8, "enc", 1, OP_RAND | OP_OMP) SH2(Dec, 64, 8, "enc", 1, OP_OMP) SH2(EncDec, 65, 16, "enc", 2, OP_RAND | OP_OMP) SH2(EncDec, 61, 8, "enc", 2, OP_RAND | OP_OMP)
SH2(SwkGen, 64, 8, "enc", 2, OP_RAND | OP_OMP) SH2(SwkGen, 100, 8, "enc", 2, OP_RAND | OP_OMP)
SH2(KeySwitch, 64, 8, "ks", 8, AT | OP_RAND) SH2(RotCt, 64, 8, "ks", 8, AT | OP_RAND) SH2(ConjCt, 65, 8, "ks", 8, AT | OP_RAND) SH2(Autom, 64, 16, "ks", 1, 0)
SH3(Rescale, 128, 64, 8, "ks", 1, 0) SH3(Rescale, 250, 190, 8, "ks", 1, 0) SH3(Resize, 64, 128, 8, "arith", 1, 0) SH3(Resize, 65, 300, 8, "arith", 1, 0)
SH2(MulCt, 64, 8, "arith", 12, AT | OP_RAND) SH2(MulCt, 100, 4, "arith", 12, AT | OP_RAND) SH2(CtProg, 64, 8, "arith", 30, AT | OP_RAND)
#endif
