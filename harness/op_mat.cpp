// Matrix-vector products on unencrypted messages and encoded plaintexts (impl/message.h, impl/plaintext.h, impl/simple_plaintext.h).
#include "msg.h"
template <int n, int S> void rand_diags(Rng& r, SparseDiagonal<n, S>& A, SparseDiagonal<n, S>& B, std::vector<ref::Slots>& v, std::vector<int>& off) {
  v.assign(S, ref::Slots(n)); off.assign(S, 0);
  for (int s = 0; s < S; s++) {
    off[s] = A.off[s] = B.off[s] = r.chance(1, 4) ? 0 : (int)r.below(n); int z = r.chance(1, 2) ? 0 : (int)r.below(4);
    A.zero[s] = z & 1; B.zero[s] = (z & 2) != 0;
    std::vector<double> xs(n, 0), ys(n, 0);
    if (!(z & 1)) gen_diag(r, xs.data(), n, 0.7 / S); if (!(z & 2)) gen_diag(r, ys.data(), n, 0.7 / S);
    for (int i = 0; i < n; i++) {
      double x = xs[i], y = ys[i];
      A.vec[s][i] = x; B.vec[s][i] = y; v[s][i] = ref::Cx(x, y);
    }
  }
}
inline ref::Slots apply_diags(const std::vector<ref::Slots>& v, const std::vector<int>& off, const ref::Slots& z) {
  int n = (int)z.size(); ref::Slots o(n);
  for (size_t s = 0; s < v.size(); s++) for (int i = 0; i < n; i++) o[i] += v[s][i] * z[(i + off[s]) % n];
  return o;
}
inline double pt_err(int N, int S, double zmax, int sc, int ld) {   // S encoded diagonals times an encoded vector
  double e = N * 0.51 * ldexp(1, -sc), pt = N * 0.51 * ldexp(1, -ld) + N * 64 * ldexp(1, -50);
  return S * ((1 + pt) * e + pt * zmax) + 1e-12;
}
// encoded plaintext by K consecutive diagonals, and by three sparse ones
template <int Q, int LOGN, int K, int LD> struct PtMat : LibOp {
  static const int N = 1 << LOGN, n = N / 2, SC = Q - LD - 8;
  Box<R_Q<Q, N>> pt, o, o3; Box<Message<LOGN>[K]> A; Box<SparseDiagonal<n, 3>> B, C; std::vector<ref::Slots> v, v3; std::vector<int> off, off3; ref::Slots z;
  void prepare(Rng& r) override {
    z = gen_slots(r, n); from_ref(enc_slots(z, ldexpl(1, SC), Q), *pt); v.assign(K, ref::Slots(n)); off.resize(K);
    for (int k = 0; k < K; k++) {
      off[k] = k; bool zero = r.chance(1, 5);
      std::vector<double> xs(n, 0), ys(n, 0); if (!zero) { if (r.chance(4, 5)) gen_diag(r, xs.data(), n, 0.7 / K); if (r.chance(4, 5)) gen_diag(r, ys.data(), n, 0.7 / K); }
      for (int i = 0; i < n; i++) { double x = xs[i], y = ys[i]; (*A)[k].r[i] = x; (*A)[k].i[i] = y; v[k][i] = ref::Cx(x, y); }
    }
    rand_diags<n, 3>(r, *B, *C, v3, off3);
  }
  void prefill(uint64_t g) override { garbage(*o, g); garbage(*o3, g + 1); }
  void run() override { matrix_vector_product<Q, LOGN, K>(*pt, *A, 1ull << LD, *o); matrix_vector_product<Q, LOGN>(*pt, *B, *C, 1ull << LD, *o3); }
  uint64_t out() override { Digest d; d.rq(*o); d.rq(*o3); return d.h; }
  uint64_t in() override { Digest d; d.rq(*pt); for (int k = 0; k < K; k++) { d.reals((*A)[k].r, n); d.reals((*A)[k].i, n); } d.diag(*B, 3, n); d.diag(*C, 3, n); return d.h; }
  std::string verify() override {
    if (!ref::reduced(to_ref(*o), Q) || !ref::reduced(to_ref(*o3), Q)) return strf("plaintext matrix_vector_product<%d,%d,%d>: not reduced", Q, LOGN, K);
    double e = ref::dist(ref::slots(to_ref(*o), Q, ldexpl(1, SC + LD)), apply_diags(v, off, z)), b = pt_err(N, K, supn(z), SC, LD); ratio = e / b;
    if (!(e <= b)) return strf("plaintext matrix_vector_product<%d,%d,%d>: slots off by %g, allowed %g", Q, LOGN, K, e, b);
    e = ref::dist(ref::slots(to_ref(*o3), Q, ldexpl(1, SC + LD)), apply_diags(v3, off3, z)); b = pt_err(N, 3, supn(z), SC, LD); ratio = std::max(ratio, e / b);
    return e <= b ? "" : strf("plaintext matrix_vector_product<%d,%d> with three diagonals: slots off by %g, allowed %g", Q, LOGN, e, b);
  }
};
// on messages
template <int LOGN, int K> struct MsgMat : LibOp {
  static const int N = 1 << LOGN, n = N / 2;
  Box<Message<LOGN>> z, w, a, s, m, p, q; Box<Message<LOGN>[K]> A; Box<SparseDiagonal<n, K>> B, C; Box<Message<LOGN + 1>> g2; Box<SimplePlaintext<LOGN>> x, y, xa, xs;
  std::vector<ref::Slots> v, v3; std::vector<int> off, off3; ref::Slots sz, sw; double num[5];
  void prepare(Rng& r) override {
    sz = gen_slots(r, n); sw = gen_slots(r, n); put_slots(sz, z->r, z->i); put_slots(sw, w->r, w->i); v.assign(K, ref::Slots(n)); off.resize(K);
    for (int k = 0; k < K; k++) {
      off[k] = k; std::vector<double> xs(n, 0), ys(n, 0); if (r.chance(4, 5)) gen_diag(r, xs.data(), n, 1); if (r.chance(4, 5)) gen_diag(r, ys.data(), n, 1);
      for (int i = 0; i < n; i++) { (*A)[k].r[i] = xs[i]; (*A)[k].i[i] = ys[i]; v[k][i] = ref::Cx(xs[i], ys[i]); }
    }
    rand_diags<n, K>(r, *B, *C, v3, off3);
    bool whole = r.chance(1, 2);
    for (int i = 0; i < N; i++) for (double* d : {&x->data[i], &y->data[i]}) *d = whole ? (double)(int64_t)r.below(2000) - 1000 : (2 * r.unit() - 1) * 1000;
  }
  void prefill(uint64_t g) override { for (auto* b : {&a, &s, &m, &p, &q}) garbage(**b, g++); garbage(*g2, g); garbage(*xa, g + 1); garbage(*xs, g + 2); for (auto& d : num) d = -7; }
  void run() override {
    add<LOGN>(*z, *w, *a); sub<LOGN>(*z, *w, *s); mul<LOGN>(*z, *w, *m); matrix_vector_product<LOGN, K>(*z, *A, *p); matrix_vector_product<LOGN, K>(*z, *B, *C, *q); aggregate<LOGN>(*z, *w, *g2);
    num[0] = square_sum<LOGN>(*z); num[1] = norm<LOGN>(*z); num[2] = sup_norm<LOGN>(*z); add<LOGN>(*x, *y, *xa); sub<LOGN>(*x, *y, *xs); num[3] = square_sum<LOGN>(*x); num[4] = norm<LOGN>(*x);
  }
  uint64_t out() override { Digest d; for (auto* b : {&a, &s, &m, &p, &q}) { d.reals((*b)->r, n); d.reals((*b)->i, n); } d.reals(g2->r, N); d.reals(g2->i, N); d.reals(xa->data, N); d.reals(xs->data, N); d.reals(num, 5); return d.h; }
  uint64_t in() override { Digest d; for (auto* b : {&z, &w}) { d.reals((*b)->r, n); d.reals((*b)->i, n); } d.diag(*B, K, n); d.diag(*C, K, n); d.reals(x->data, N); d.reals(y->data, N); return d.h; }
  std::string verify() override {
    ref::Slots ws(n), wd(n), wm(n); long double sq = 0, mx = 0, xs2 = 0; double tol = K * 1e-14;
    for (int i = 0; i < n; i++) { ws[i] = sz[i] + sw[i]; wd[i] = sz[i] - sw[i]; wm[i] = sz[i] * sw[i]; sq += std::norm(sz[i]); mx = std::max(mx, std::abs(sz[i])); }
    auto is = [&](const Box<Message<LOGN>>& g, const ref::Slots& want) { double e = ref::dist(get_slots(g->r, g->i, n), want); ratio = std::max(ratio, e / tol); return e <= tol; };
    if (!is(a, ws)) return strf("sum of messages<%d>", LOGN); if (!is(s, wd)) return strf("difference of messages<%d>", LOGN); if (!is(m, wm)) return strf("product of messages<%d>", LOGN);
    if (!is(p, apply_diags(v, off, sz))) return strf("message matrix_vector_product<%d,%d>", LOGN, K);
    if (!is(q, apply_diags(v3, off3, sz))) return strf("message matrix_vector_product<%d,%d> with sparse diagonals", LOGN, K);
    for (int i = 0; i < N; i++) { const auto& h = i < n ? z : w; if (g2->r[i] != h->r[i % n] || g2->i[i] != h->i[i % n]) return strf("aggregate<%d>: slot %d", LOGN, i); if (xa->data[i] != x->data[i] + y->data[i] || xs->data[i] != x->data[i] - y->data[i]) return strf("sum or difference of plaintexts<%d>: coefficient %d", LOGN, i); xs2 += (long double)x->data[i] * x->data[i]; }
    auto near = [](double g, long double want) { return fabsl(g - want) <= 1e-12L * (1 + fabsl(want)); };
    if (!near(num[0], sq) || !near(num[1], sqrtl(sq)) || !near(num[2], mx) || !near(num[3], xs2) || !near(num[4], sqrtl(xs2))) return strf("norms<%d>", LOGN);
    return "";
  }
};
#define PMF(Q, L, K, D, C) OPREG("PtMat<" #Q "," #L "," #K "," #D ">", "lt", C, OP_ALLOC | OP_TABLE | OP_OMP, PtMat<Q, L, K, D>)
#define MMF(L, K) OPREG("MsgMat<" #L "," #K ">", "lt", 1, 0, MsgMat<L, K>)
#ifdef OPS_BIG
PMF(100, 8, 3, 40, 60) PMF(90, 10, 2, 35, 100) MMF(9, 4) MMF(12, 3)
#else
PMF(70, 3, 3, 25, 25) PMF(64, 2, 2, 20, 8) PMF(100, 4, 5, 40, 60) PMF(128, 3, 4, 50, 40) PMF(90, 5, 3, 30, 60)
MMF(2, 1) MMF(3, 3) MMF(4, 8) MMF(6, 5)
#endif
