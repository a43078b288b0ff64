// Messages (vectors of complex slots) for the generators.
#pragma once
#include "kit.h"
inline ref::Slots gen_slots(Rng& r, int n, double maxabs = 1) {
  ref::Slots z(n); int st = (int)r.below(8);
  auto u = [&] { return (long double)(double)((2 * r.unit() - 1) * maxabs * 0.70710678); };
  int hot = (int)r.below(n); ref::Cx c(u(), u());
  for (int i = 0; i < n; i++) {
    switch (st) {
      default: z[i] = ref::Cx(u(), u()); break;
      case 1: z[i] = 0; break;
      case 2: z[i] = c; break;
      case 3: z[i] = i == hot ? ref::Cx(maxabs, 0) : ref::Cx(0, 0); break;
      case 4: z[i] = ref::Cx((i & 1) ? -maxabs : maxabs, 0); break;
      case 5: z[i] = ref::Cx(0, (double)u()); break;
      case 7: z[i] = ref::Cx(c.real() > 0 ? maxabs : -maxabs, 0); break;
      case 6: z[i] = r.chance(1, 3) ? ref::Cx(0, 0) : ref::Cx((double)(u() * 1e-6), u()); break;
    }
  }
  return z;
}
inline void put_slots(const ref::Slots& z, double* re, double* im) { for (size_t i = 0; i < z.size(); i++) { re[i] = (double)z[i].real(); im[i] = (double)z[i].imag(); } }
inline ref::Slots get_slots(const double* re, const double* im, int n) { ref::Slots z(n); for (int i = 0; i < n; i++) z[i] = ref::Cx(re[i], im[i]); return z; }
inline double supn(const ref::Slots& z) { double m = 0; for (auto& x : z) { double a = (double)std::abs(x); if (!(a <= m)) m = a; } return m; }
inline ref::Poly enc_slots(const ref::Slots& z, long double scale, int logq) {
  std::vector<long double> m = ref::unembed(z); for (auto& x : m) x *= scale; return ref::poly_of(m, logq);
}

// The values of one diagonal, real or imaginary part: style 0-3 random, then constant, alternating in sign (sum zero),
// a single nonzero entry, a zero first or last entry, equal magnitudes with random signs.
inline void gen_diag(Rng& r, double* v, int n, double m) {
  int st = (int)r.below(10), hot = r.chance(1, 2) ? n - 1 : (int)r.below(n); double c = (2 * r.unit() - 1) * m;
  for (int i = 0; i < n; i++) {
    double u = (2 * r.unit() - 1) * m;
    switch (st) {
      default: v[i] = u; break;
      case 4: v[i] = c; break;
      case 5: v[i] = (i & 1) ? -c : c; break;
      case 6: v[i] = i == hot ? c : 0; break;
      case 7: v[i] = i == 0 || (i == n - 1 && c > 0) ? 0 : u; break;
      case 8: v[i] = r.chance(1, 2) ? m : -m; break;
      case 9: v[i] = (i < n / 2) == (c > 0) ? u : 0; break;
    }
  }
}
