// The algebra of diagonal matrices (matrix/matrix.h) against dense matrices.
#include "diag.h"
template <int n, int S1, int S2> struct DiagAlg : LibOp {
  typedef SparseDiagonal<n, S1> D1; typedef SparseDiagonal<n, S2> D2; typedef SparseDiagonal<n, S1 * S2> D3;
  Box<D1> A, B, Ai, sum, dif, sc, tr, ne, se; Box<D2> C, Ci; Box<D3> P, Pr, Pi, big; Box<SparseDiagonal<n, S1 * S2 + 1>> wide; Box<double[n][n]> el, xr, xi, yr, yi, zr, zi; double k = 1, v = 0; int si = 0, sj = 0;
  void prepare(Rng& r) override {
    auto o = gen_offs(r, n, S1), o2 = gen_offs(r, n, S2); put_diags<n, S1>(r, *A, o); put_diags<n, S1>(r, *B, o); put_diags<n, S1>(r, *Ai, o); put_diags<n, S2>(r, *C, o2); put_diags<n, S2>(r, *Ci, o2);
    k = r.chance(1, 4) ? 0 : 4 * r.unit() - 2; v = 2 * r.unit() - 1; si = (int)r.below(n); sj = (si + o[r.below(S1)]) % n;
    for (auto* m : {&xr, &xi, &yr, &yi}) { bool tri = r.chance(1, 3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (**m)[i][j] = tri && j < i ? 0 : 2 * r.unit() - 1; }
    for (int s = 0; s <= S1 * S2; s++) { wide->off[s] = s % n; wide->zero[s] = s == S1 * S2; for (int i = 0; i < n; i++) wide->vec[s][i] = s == S1 * S2 ? 0 : 2 * r.unit() - 1; }
  }
  void prefill(uint64_t g) override { for (auto* x : {&sum, &dif, &sc, &tr, &ne, &se}) garbage(**x, g++); for (auto* x : {&P, &Pr, &Pi, &big}) garbage(**x, g++); for (auto* x : {&el, &zr, &zi}) garbage(**x, g++); }
  void run() override {
    *sum = *A; *sum += *B; *dif = *A; *dif -= *B; *sc = *A; *sc *= k; *tr = *A; tr->transpose(); *ne = *A; ne->negate(); *se = *A; se->set_element(si, sj, v);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (*el)[i][j] = A->get_element(i, j);
    MatMul<n, S1, S2>(*A, *C, *P); MatMul<n, S1, S2>(*A, *Ai, *C, *Ci, *Pr, *Pi); RemoveClutter<n, S1 * S2 + 1, S1 * S2>(*wide, *big);
    matrix_product<n>(*xr, *xi, *yr, *yi, *zr, *zi);
  }
  uint64_t out() override { Digest d; for (auto* x : {&sum, &dif, &sc, &tr, &ne, &se}) d.diag(**x, S1, n); for (auto* x : {&P, &Pr, &Pi, &big}) d.diag(**x, S1 * S2, n); for (auto* x : {&el, &zr, &zi}) d.reals((**x)[0], n * n); return d.h; }
  uint64_t in() override { Digest d; for (auto* x : {&A, &B, &Ai}) d.diag(**x, S1, n); d.diag(*C, S2, n); d.diag(*Ci, S2, n); d.diag(*wide, S1 * S2 + 1, n); for (auto* x : {&xr, &xi, &yr, &yi}) d.reals((**x)[0], n * n); return d.h; }
  std::string verify() override {
    double tol = (S1 + S2) * 4e-15; std::string bad; const Dense a = dense(*A, false), b = dense(*B, false), ai = dense(*Ai, false), c = dense(*C, false), ci = dense(*Ci, false), zero(n, std::vector<double>(n, 0));
    auto is = [&](const char* what, const auto& M, const Dense& want) {
      for (bool f : {false, true}) { double e = far(dense(M, f), want); if (!(e <= tol) && bad.empty()) bad = strf("diagonal matrices<%d,%d,%d>, %s%s: off by %g", n, S1, S2, what, f ? ", without the diagonals flagged as zero" : "", e); }
    };
    Dense at = a; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { at[i][j] = a[j][i]; if ((*el)[i][j] != a[i][j]) return strf("diagonal matrices<%d,%d,%d>: element %d, %d", n, S1, S2, i, j); }
    Dense as = a; as[si][sj] = v;
    is("sum", *sum, comb(a, 1, b, 1)); is("difference", *dif, comb(a, 1, b, -1)); is("scaled", *sc, comb(a, k, b, 0)); is("transpose", *tr, at); is("negative", *ne, comb(a, -1, b, 0)); is("set element", *se, as);
    is("product", *P, times(a, c)); is("complex product, real part", *Pr, comb(times(a, c), 1, times(ai, ci), -1)); is("complex product, imaginary part", *Pi, comb(times(a, ci), 1, times(ai, c), 1));
    is("shortened", *big, dense(*wide, false));
    auto full = [](const double (*m)[n]) { Dense d(n, std::vector<double>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d[i][j] = m[i][j]; return d; };
    Dense fxr = full(*xr), fxi = full(*xi), fyr = full(*yr), fyi = full(*yi);
    double e = std::max(far(full(*zr), comb(times(fxr, fyr), 1, times(fxi, fyi), -1)), far(full(*zi), comb(times(fxr, fyi), 1, times(fxi, fyr), 1)));
    if (!(e <= n * 1e-14) && bad.empty()) bad = strf("matrix_product<%d>: off by %g", n, e);
    return bad;
  }
};
#define DAF(n, S1, S2, C) OPREG("DiagAlg<" #n "," #S1 "," #S2 ">", "lt", C, 0, DiagAlg<n, S1, S2>)
#ifdef OPS_BIG
DAF(64, 3, 9, 6) DAF(128, 3, 3, 8)
#else
DAF(4, 3, 3, 1) DAF(8, 3, 3, 1) DAF(8, 1, 5, 1) DAF(16, 2, 7, 2) DAF(5, 2, 2, 1)
#endif
