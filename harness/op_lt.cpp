// Encrypted linear transforms (linear_transform.h) with sparse-diagonal and dense matrices.
#include "msg.h"
template <int n, int S> struct Diags { SparseDiagonal<n, S> r, i; };
template <int n, int S> void gen_diags(Rng& r, SparseDiagonal<n, S>& A, SparseDiagonal<n, S>& B, std::vector<ref::Slots>& v, std::vector<int>& off, bool distinct) {
  v.assign(S, ref::Slots(n)); off.assign(S, 0); int kind = (int)r.below(4);
  for (int s = 0; s < S; s++) {
    for (int t = 0; t < 50; t++) {
      off[s] = r.chance(1, 4) ? 0 : r.chance(1, 3) ? (int)r.below(4) % n : (int)r.below(n); bool dup = false; for (int k = 0; k < s; k++) dup |= off[k] == off[s];
      if (!dup || (!distinct && r.chance(1, 3))) break;
    }
    A.off[s] = B.off[s] = off[s]; int z = r.chance(1, 2) ? 0 : (int)r.below(4);   // 1: real part zero, 2: imaginary part zero, 3: both
    A.zero[s] = z & 1; B.zero[s] = (z & 2) != 0;
    if (kind == 1 && z == 0 && r.chance(1, 2)) A.zero[s] = false;
    double m = kind == 3 ? 1e-3 : 1; std::vector<double> xs(n, 0), ys(n, 0);
    if (!(z & 1)) gen_diag(r, xs.data(), n, m / S * 0.7); if (!(z & 2)) gen_diag(r, ys.data(), n, m / S * 0.7);
    for (int i = 0; i < n; i++) {
      double x = xs[i], y = ys[i];
      if (kind == 2) { x = (z & 1) ? 0 : (r.chance(1, 2) ? 1.0 : -1.0) / S * 0.7; y = 0; }
      A.vec[s][i] = x; B.vec[s][i] = y; v[s][i] = ref::Cx(x, y);
    }
  }
}
inline ref::Slots apply(const std::vector<ref::Slots>& v, const std::vector<int>& off, const ref::Slots& z) {
  int n = (int)z.size(); ref::Slots o(n);
  for (size_t s = 0; s < v.size(); s++) for (int i = 0; i < n; i++) o[i] += v[s][i] * z[(i + off[s]) % n];
  return o;
}
// worst case of one transform, in slots, relative to the output scale: input error e (slots, relative), key-switch noise k per coefficient
inline double lt_err(int N, int S, double e, double zmax, double k, int sc, int ld) {
  double pt = N * 0.51 * ldexp(1, -ld) + N * 64 * ldexp(1, -50);   // encoding a diagonal
  return S * ((1 + pt) * (e + N * k * ldexp(1, -sc)) + pt * zmax);
}
template <int Q, int LOGN, int LD, int S, int MODE> struct Lt : LibOp {   // MODE 0: precomputed rotation keys, 1: generated on the fly
  static const int N = 1 << LOGN, n = N / 2, SC = Q - LD - 12;
  typedef R_Q_square<2 * Q, N> Key2;
  Box<R_Q_square<Q, N>> ct, o; Box<SparseDiagonal<n, S>> A, B; Box<int[N]> sk; Box<Key2> key[MODE ? 1 : S]; const Key2* ptr[S]; Box<int[N]> kr;
  std::vector<ref::Slots> v; std::vector<int> off; ref::Slots z; ref::Key s; bool libkey = false; double ce = 8, ke = 8;
  void prepare(Rng& r) override {
    s = gen_key(r, N, gen_h(r, N)); from_key(s, *sk); z = gen_slots(r, n); libkey = r.chance(1, 3);
    ce = ref_enc<Q, N>(r, enc_slots(z, ldexpl(1, SC), Q), s, *ct); gen_diags<n, S>(r, *A, *B, v, off, false);
    if (MODE == 0) { ke = 0; for (int i = 0; i < S; i++) { ke = std::max(ke, ref_swk<Q, N>(r, ref::automorph(s, ref::pow5(off[i], N)), s, *key[i])); ptr[i] = &*key[i]; } }
    if (libkey) ke = 8;
  }
  void prefill(uint64_t g) override { garbage(*o, g); garbage(*kr, g + 1); if (MODE == 0 && libkey) for (int i = 0; i < S; i++) garbage(*key[i], g + i + 2); }
  void run() override {
    if (MODE == 1) { linear_transform<Q, LOGN, LD, S>(*A, *B, *ct, *sk, *o); return; }
    if (libkey) for (int i = 0; i < S; i++) { rot<N>(*sk, *kr, A->off[i]); HEAAN<Q, N>::swkgen(*kr, *sk, *key[i]); }
    linear_transform<Q, LOGN, LD, S>(*A, *B, *ct, ptr, *o);
  }
  uint64_t out() override { Digest d; d.ct(*o); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); d.diag(*A, S, n); d.diag(*B, S, n); d.ints(*sk, N); if (MODE == 0 && !libkey) for (int i = 0; i < S; i++) d.ct(*key[i]); return d.h; }
  std::string verify() override {
    if (!is_reduced(*o)) return strf("linear_transform<%d,%d,%d,%d>: not reduced", Q, LOGN, LD, S);
    double e = ref::dist(ref::slots(ref_dec(*o, s), Q, ldexpl(1, SC + LD)), apply(v, off, z));
    double b = lt_err(N, S, N * (ce + 1) * ldexp(1, -SC), supn(z), ks_bound(N, s, ke), SC, LD) + 1e-12; ratio = e / b;
    return e <= b ? "" : strf("linear_transform<%d,%d,%d,%d> (%s): slots off by %g, allowed %g", Q, LOGN, LD, S, MODE ? "keys on the fly" : "given keys", e, b);
  }
};
template <int Q, int LOGN, int LD, int S> struct LtKeys : Lt<Q, LOGN, LD, S, 0> {};
template <int Q, int LOGN, int LD, int S> struct LtFly : Lt<Q, LOGN, LD, S, 1> {};
// a sequence of D matrices, merged in groups of G
template <int Q, int LOGN, int LD, int S, int D, int G> struct LtSeq : LibOp {
  static const int N = 1 << LOGN, n = N / 2, SC = Q - D * LD - 12;
  Box<R_Q_square<Q, N>> ct, o; Box<SparseDiagonal<n, S>[D]> A, B; Box<int[N]> sk; ref::Slots z, want; ref::Key s; double zm = 1, ce = 8; bool serial = false;
  void prepare(Rng& r) override {
    s = gen_key(r, N, gen_h(r, N)); from_key(s, *sk); z = gen_slots(r, n); want = z; zm = supn(z);
    ce = ref_enc<Q, N>(r, enc_slots(z, ldexpl(1, SC), Q), s, *ct); serial = G == 1 && r.chance(1, 2);
    for (int d = 0; d < D; d++) { std::vector<ref::Slots> v; std::vector<int> off; gen_diags<n, S>(r, (*A)[d], (*B)[d], v, off, false); want = apply(v, off, want); zm = std::max(zm, supn(want)); }
  }
  void prefill(uint64_t g) override { garbage(*o, g); }
  void run() override {
    if (serial) serial_linear_transform<Q, LOGN, LD, S, D>(*A, *B, *ct, *sk, *o);
    else grouped_serial_linear_transform<Q, LOGN, LD, S, D, G>(*A, *B, *ct, *sk, *o);
  }
  uint64_t out() override { Digest d; d.ct(*o); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); for (int k = 0; k < D; k++) { d.diag((*A)[k], S, n); d.diag((*B)[k], S, n); } d.ints(*sk, N); return d.h; }
  std::string verify() override {
    if (!is_reduced(*o)) return strf("grouped_serial_linear_transform<%d,%d,%d,%d,%d,%d>: not reduced", Q, LOGN, LD, S, D, G);
    double e = ref::dist(ref::slots(ref_dec(*o, s), Q, ldexpl(1, SC + LD * (D / G))), want), b = N * (ce + 1) * ldexp(1, -SC); int T = 1; for (int g = 0; g < G; g++) T *= S;
    for (int d = 0; d < D / G; d++) b = lt_err(N, T, b, zm, ks_bound(N, s), SC + d * LD, LD) + 1e-12;
    ratio = e / b;
    return e <= b ? "" : strf("grouped_serial_linear_transform<%d,%d,%d,%d,%d,%d>: slots off by %g, allowed %g", Q, LOGN, LD, S, D, G, e, b);
  }
};
// a dense matrix
template <int Q, int LOGN, int LD> struct LtDense : LibOp {
  static const int N = 1 << LOGN, n = N / 2, SC = Q - LD - 12;
  Box<R_Q_square<Q, N>> ct, o; Box<R_Q_square<2 * Q, N>> key; Box<double[n][n]> A, B; ref::Slots z; ref::Key s; double ce = 8, ke = 8;
  void prepare(Rng& r) override {
    s = gen_key(r, N, gen_h(r, N)); z = gen_slots(r, n); ce = ref_enc<Q, N>(r, enc_slots(z, ldexpl(1, SC), Q), s, *ct);
    ke = ref_swk<Q, N>(r, ref::automorph(s, 5), s, *key); int kind = (int)r.below(8); double m = 0.7 / n;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { (*A)[i][j] = kind == 1 && r.chance(2, 3) ? 0 : (2 * r.unit() - 1) * m; (*B)[i][j] = kind == 2 ? 0 : (2 * r.unit() - 1) * m; }
    // kinds 3 and 4: given diagonals, most of them zero; 5: triangular; 6: a zero row and a zero column; 7: a permutation
    if (kind == 3 || kind == 4) for (int d = 0; d < n; d++) {
      double x[n], y[n]; bool some = r.chance(1, kind); gen_diag(r, x, n, m); gen_diag(r, y, n, m); bool re = some && r.chance(2, 3), im = some && r.chance(2, 3);
      for (int i = 0; i < n; i++) { (*A)[i][(i + d) % n] = re ? x[i] : 0; (*B)[i][(i + d) % n] = im ? y[i] : 0; }
    }
    bool up = r.chance(1, 2); int zr = (int)r.below(n), zc = (int)r.below(n), sh = (int)r.below(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      if ((kind == 5 && (up ? j < i : j > i)) || (kind == 6 && (i == zr || j == zc))) (*A)[i][j] = (*B)[i][j] = 0;
      if (kind == 7) { (*A)[i][j] = j == (up ? i + sh : n - 1 - i + sh) % n ? 0.7 : 0; (*B)[i][j] = 0; }
    }
  }
  void prefill(uint64_t g) override { garbage(*o, g); }
  void run() override { linear_transform<Q, LOGN, LD>(*A, *B, *ct, *key, *o); }
  uint64_t out() override { Digest d; d.ct(*o); return d.h; }
  uint64_t in() override { Digest d; d.ct(*ct); d.ct(*key); for (int i = 0; i < n; i++) { d.reals((*A)[i], n); d.reals((*B)[i], n); } return d.h; }
  std::string verify() override {
    ref::Slots want(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) want[i] += ref::Cx((*A)[i][j], (*B)[i][j]) * z[j];
    double e = ref::dist(ref::slots(ref_dec(*o, s), Q, ldexpl(1, SC + LD)), want);
    double b = lt_err(N, n, N * (ce + 1) * ldexp(1, -SC), supn(z), ks_bound(N, s, ke) * n, SC, LD) + 1e-12; ratio = e / b;
    return e <= b ? "" : strf("dense linear_transform<%d,%d,%d>: slots off by %g, allowed %g", Q, LOGN, LD, e, b);
  }
};
#define FL (OP_ALLOC | OP_TABLE | OP_OMP | OP_RAND)
#define LTF(Q, L, D, S, C) OPREG("LtKeys<" #Q "," #L "," #D "," #S ">", "lt", C, FL, LtKeys<Q, L, D, S>) OPREG("LtFly<" #Q "," #L "," #D "," #S ">", "lt", C, FL, LtFly<Q, L, D, S>)
#define LSF(Q, L, LD, S, D, G, C) OPREG("LtSeq<" #Q "," #L "," #LD "," #S "," #D "," #G ">", "lt", C, FL, LtSeq<Q, L, LD, S, D, G>)
#define LDF(Q, L, LD, C) OPREG("LtDense<" #Q "," #L "," #LD ">", "lt", C, FL, LtDense<Q, L, LD>)
#ifdef OPS_BIG
LTF(90, 8, 40, 3, 100) LTF(120, 9, 45, 2, 200) LTF(300, 6, 50, 4, 100) LTF(128, 10, 50, 1, 200) LSF(150, 7, 30, 3, 2, 2, 200) LSF(200, 8, 30, 2, 2, 1, 200) LSF(260, 6, 30, 3, 3, 3, 400) LDF(120, 6, 45, 200)
#elif defined(OPS_SMALL)
LTF(90, 3, 30, 3, 40) LSF(120, 3, 25, 2, 2, 1, 60) LSF(120, 3, 25, 2, 2, 2, 40)
#ifndef NO_DENSE
LDF(90, 2, 30, 20)
#endif
#else
LTF(64, 3, 20, 1, 12) LTF(90, 3, 30, 3, 40) LTF(100, 4, 40, 5, 100) LTF(128, 3, 50, 4, 60) LTF(120, 5, 40, 2, 80) LTF(90, 2, 30, 2, 20) LTF(150, 6, 40, 2, 200)
LSF(120, 3, 25, 2, 2, 1, 60) LSF(120, 3, 25, 2, 2, 2, 60) LSF(150, 3, 25, 2, 3, 3, 100) LSF(150, 3, 25, 2, 3, 1, 120) LSF(150, 3, 25, 2, 4, 4, 200) LSF(190, 3, 25, 2, 4, 2, 200) LSF(190, 3, 25, 3, 4, 2, 350) LSF(150, 4, 25, 3, 2, 2, 200) LSF(190, 4, 25, 2, 4, 4, 350) LSF(190, 2, 25, 2, 6, 3, 150) LSF(190, 3, 25, 3, 3, 3, 400)
#ifndef NO_DENSE
LDF(90, 2, 30, 20) LDF(100, 3, 30, 60) LDF(120, 4, 40, 200)
#endif
#endif
