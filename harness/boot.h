// Shared by the bootstrapping operations: coefficient layouts and error bounds.
#pragma once
#include "msg.h"
inline std::vector<long double> gen_coeffs(Rng& r, int N) {
  std::vector<long double> c(N); int st = (int)r.below(6), hot = (int)r.below(N); double k = 2 * r.unit() - 1;
  for (int i = 0; i < N; i++) switch (st) {
    default: c[i] = 2 * r.unit() - 1; break;
    case 1: c[i] = i == hot; break;
    case 2: c[i] = r.chance(1, 2) ? 1 : -1; break;
    case 3: c[i] = k; break;
    case 4: c[i] = r.chance(1, 4) ? 2 * r.unit() - 1 : 0; break;
  }
  return c;
}
inline int brev(int i, int bits) { int o = 0; for (int b = 0; b < bits; b++) if (i >> b & 1) o |= 1 << (bits - 1 - b); return o; }
// slot j of half h: coefficient bitrev(j) of that half
inline void halves(const std::vector<long double>& c, ref::Slots& w0, ref::Slots& w1) {
  int n = (int)c.size() / 2, b = 0; while ((1 << b) < n) b++;
  for (int j = 0; j < n; j++) { w0[j] = c[brev(j, b)]; w1[j] = c[n + brev(j, b)]; }
}
inline double coeff_err(const ref::Poly& p, int logq, long double scale, const std::vector<long double>& c) {
  long double e = 0; for (size_t i = 0; i < c.size(); i++) { long double x = fabsl(ref::coeffl(p, (int)i, logq) / scale - c[i]); if (!(x <= e)) e = x; }
  return (double)e;
}
inline double rs_slots(int N, const ref::Key& s, int sc) { return N * 0.5 * (1 + norm1(s)) * ldexp(1, -sc) * 1.01; }
// Worst case through L merged levels of G factors, in slots relative to the running scale. A row of a
// merged factor has 2^G nonzeros of modulus at most 1 (times f); each diagonal is encoded with rounding.
inline double levels_err(int N, int LOGN, int LD, int G, double e, double z, double k, int sc, double f) {
  int L = (LOGN - 1) / G, S = 1; for (int i = 0; i < G; i++) S *= 3;
  double row = ldexp(1, G) * pow(f, G), pt = N * 0.51 * ldexp(1, -LD) + N * 8 * ldexp(1, -52);
  for (int l = 0; l < L; l++) {
    double in = e + N * k * ldexp(1, -sc);
    e = (row + S * pt) * in + S * pt * z; if (row > 1) z *= row;
    sc += LD;
  }
  return e;
}
inline double cts_err(int N, int LOGN, int LD, int G, double e, double z, double k, int sc) {
  double x = levels_err(N, LOGN, LD, G, e, z, k, sc, pow(N, -1.0 / (LOGN - 1)));
  return 2 * x + N * k * ldexp(1, -(sc + (LOGN - 1) / G * LD)) + 1e-15;
}
inline double stc_err(int N, int LOGN, int LD, int G, double e, double z, double k, int sc) { return 2 * levels_err(N, LOGN, LD, G, e, z, k, sc, 1) + 1e-15; }
