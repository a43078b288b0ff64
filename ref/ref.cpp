#include "ref.h"
#include <cmath>
#include <cstdio>
#include <cstring>

namespace ref {
static uint64_t topmask(int logq) { int r = logq % 64; return r ? (~0ull >> (64 - r)) : ~0ull; }
static int degree(const Poly& a, int logq) { return (int)(a.size() / limbs(logq)); }
bool reduced(const Poly& a, int logq) {
  int L = limbs(logq);
  for (size_t i = L - 1; i < a.size(); i += L) if (a[i] & ~topmask(logq)) return false;
  return true;
}
static void addw(uint64_t* r, const uint64_t* b, int L) {
  unsigned __int128 c = 0;
  for (int j = 0; j < L; j++) { c += (unsigned __int128)r[j] + b[j]; r[j] = (uint64_t)c; c >>= 64; }
}
static void subw(uint64_t* r, const uint64_t* b, int L) {
  uint64_t br = 0;
  for (int j = 0; j < L; j++) {
    unsigned __int128 x = (unsigned __int128)r[j] - b[j] - br;
    r[j] = (uint64_t)x; br = (uint64_t)(x >> 64) ? 1 : 0;
  }
}
static bool isneg(const uint64_t* a, int logq) { int b = logq - 1; return (a[b / 64] >> (b % 64)) & 1; }
Poly add(const Poly& a, const Poly& b, int logq) {
  int L = limbs(logq); Poly r = a;
  for (size_t i = 0; i < a.size(); i += L) { addw(&r[i], &b[i], L); r[i + L - 1] &= topmask(logq); }
  return r;
}
Poly sub(const Poly& a, const Poly& b, int logq) {
  int L = limbs(logq); Poly r = a;
  for (size_t i = 0; i < a.size(); i += L) { subw(&r[i], &b[i], L); r[i + L - 1] &= topmask(logq); }
  return r;
}
Poly neg(const Poly& a, int logq) { return sub(Poly(a.size(), 0), a, logq); }
Poly muli(const Poly& a, uint64_t k, int logq) {
  int L = limbs(logq); Poly r = a;
  for (size_t i = 0; i < a.size(); i += L) {
    unsigned __int128 c = 0;
    for (int j = 0; j < L; j++) { c += (unsigned __int128)a[i + j] * k; r[i + j] = (uint64_t)c; c >>= 64; }
    r[i + L - 1] &= topmask(logq);
  }
  return r;
}
Poly mul(const Poly& a, const Poly& b, int logq) {
  int L = limbs(logq), N = degree(a, logq);
  Poly r(a.size(), 0); std::vector<uint64_t> p(L);
  for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) {
    const uint64_t *x = &a[(size_t)i * L], *y = &b[(size_t)k * L];
    std::fill(p.begin(), p.end(), 0);
    for (int u = 0; u < L; u++) {
      if (!x[u]) continue;
      unsigned __int128 c = 0;
      for (int v = 0; u + v < L; v++) { c += (unsigned __int128)x[u] * y[v] + p[u + v]; p[u + v] = (uint64_t)c; c >>= 64; }
    }
    int d = i + k;
    if (d < N) addw(&r[(size_t)d * L], p.data(), L); else subw(&r[(size_t)(d - N) * L], p.data(), L);
  }
  for (size_t i = L - 1; i < r.size(); i += L) r[i] &= topmask(logq);
  return r;
}
void mul_coeff(const Poly& a, const Poly& b, int i, int logq, uint64_t* out) {
  int L = limbs(logq), N = degree(a, logq); std::vector<uint64_t> p(L);
  for (int j = 0; j < L; j++) out[j] = 0;
  for (int k = 0; k < N; k++) {
    const uint64_t *x = &a[(size_t)k * L], *y = &b[(size_t)((i - k + N) % N) * L];
    for (int u = 0; u < L; u++) p[u] = 0;
    for (int u = 0; u < L; u++) {
      unsigned __int128 c = 0;
      for (int v = 0; u + v < L; v++) { c += (unsigned __int128)x[u] * y[v] + p[u + v]; p[u + v] = (uint64_t)c; c >>= 64; }
    }
    if (k > i) subw(out, p.data(), L); else addw(out, p.data(), L);
  }
  out[L - 1] &= topmask(logq);
}
Poly mulkey(const Key& s, const Poly& a, int logq) {
  int L = limbs(logq), N = degree(a, logq);
  Poly r(a.size(), 0); std::vector<uint64_t> p(L);
  for (int k = 0; k < N; k++) {
    if (!s[k]) continue;
    uint64_t m = s[k] < 0 ? -(int64_t)s[k] : s[k];
    for (int i = 0; i < N; i++) {
      unsigned __int128 c = 0;
      for (int j = 0; j < L; j++) { c += (unsigned __int128)a[(size_t)i * L + j] * m; p[j] = (uint64_t)c; c >>= 64; }
      int d = i + k; bool ng = s[k] < 0;
      if (d >= N) { d -= N; ng = !ng; }
      if (ng) subw(&r[(size_t)d * L], p.data(), L); else addw(&r[(size_t)d * L], p.data(), L);
    }
  }
  for (size_t i = L - 1; i < r.size(); i += L) r[i] &= topmask(logq);
  return r;
}
Key mulkey(const Key& a, const Key& b) {
  int N = (int)a.size(); Key r(N, 0);
  for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) {
    int d = i + k;
    if (d < N) r[d] += a[i] * b[k]; else r[d - N] -= a[i] * b[k];
  }
  return r;
}
Poly lift(const Poly& a, int fr, int to) {
  int L = limbs(fr), M = limbs(to), N = degree(a, fr); Poly r((size_t)N * M, 0);
  for (int i = 0; i < N; i++) {
    const uint64_t* x = &a[(size_t)i * L]; bool ng = isneg(x, fr);
    for (int j = 0; j < M; j++) {
      uint64_t v = j < L ? x[j] : (ng ? ~0ull : 0);
      if (j == L - 1 && ng) v |= ~topmask(fr);
      r[(size_t)i * M + j] = v;
    }
    r[(size_t)i * M + M - 1] &= topmask(to);
  }
  return r;
}
Poly shl(const Poly& a, int fr, int to) {
  int L = limbs(fr), M = limbs(to), N = degree(a, fr), k = to - fr; Poly r((size_t)N * M, 0);
  for (int i = 0; i < N; i++) {
    for (int b = 0; b < fr; b++) if ((a[(size_t)i * L + b / 64] >> (b % 64)) & 1) {
      int t = b + k;
      r[(size_t)i * M + t / 64] |= 1ull << (t % 64);
    }
  }
  return r;
}
Poly automorph(const Poly& a, int logq, long e) {
  int L = limbs(logq), N = degree(a, logq); Poly r(a.size(), 0);
  e %= 2 * N; if (e < 0) e += 2 * N;
  std::vector<uint64_t> z(L);
  for (int i = 0; i < N; i++) {
    long d = (long)i * e % (2 * N); bool ng = d >= N; if (ng) d -= N;
    if (ng) subw(&r[(size_t)d * L], &a[(size_t)i * L], L); else addw(&r[(size_t)d * L], &a[(size_t)i * L], L);
    r[(size_t)d * L + L - 1] &= topmask(logq);
  }
  return r;
}
Key automorph(const Key& a, long e) {
  int N = (int)a.size(); Key r(N, 0); e %= 2 * N; if (e < 0) e += 2 * N;
  for (int i = 0; i < N; i++) { long d = (long)i * e % (2 * N); if (d >= N) r[d - N] = -a[i]; else r[d] = a[i]; }
  return r;
}
long pow5(long r, int N) { long p = 1; for (long i = 0; i < r; i++) p = p * 5 % (2 * N); return p; }
Poly dec(const Poly& c0, const Poly& c1, const Key& s, int logq) { return add(c0, mulkey(s, c1, logq), logq); }
long double coeffl(const Poly& a, int i, int logq) {
  int L = limbs(logq); std::vector<uint64_t> x(a.begin() + (size_t)i * L, a.begin() + (size_t)(i + 1) * L);
  bool ng = isneg(x.data(), logq);
  if (ng) {
    std::vector<uint64_t> z(L, 0); subw(z.data(), x.data(), L); z[L - 1] &= topmask(logq); x = z;
  }
  long double r = 0;
  for (int j = L - 1; j >= 0; j--) r = r * 18446744073709551616.0L + (long double)x[j];
  return ng ? -r : r;
}
double coeff(const Poly& a, int i, int logq) {
  long double v = coeffl(a, i, logq);
  return std::fabs((double)v) > 1e308 ? (v < 0 ? -1e308 : 1e308) : (double)v;
}
double maxabs(const Poly& a, int logq) {
  double m = 0; int N = degree(a, logq);
  for (int i = 0; i < N; i++) { double v = std::fabs(coeff(a, i, logq)); if (!(v <= m)) m = v; }
  return m;
}
double rs_err(const Poly& in, int fr, const Poly& out, int to) {
  if (fr == to) return in == out ? 0 : 1e9;
  Poly d = sub(shl(out, to, fr), in, fr);
  int N = degree(in, fr); double m = 0;
  for (int i = 0; i < N; i++) {
    long double v = fabsl(coeffl(d, i, fr)); v = ldexpl(v, -(fr - to));
    if (v > m) m = (double)v;
  }
  return m;
}
uint64_t hash(const Poly& a) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (uint64_t w : a) { h = (h ^ w) * 0x100000001B3ull; h ^= h >> 31; }
  return h;
}
uint64_t hash(const double* a, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) { double v = a[i] == 0 ? 0 : a[i]; uint64_t w; memcpy(&w, &v, 8); h = (h ^ w) * 0x100000001B3ull; h ^= h >> 31; }
  return h;
}
static const long double PIL = 3.14159265358979323846264338327950288L;
static const std::vector<Cx>& roots(int N) {
  static std::vector<std::pair<int, std::vector<Cx>>> cache;
  for (auto& c : cache) if (c.first == N) return c.second;
  std::vector<Cx> w(2 * N);
  for (int i = 0; i < 2 * N; i++) w[i] = Cx(cosl(PIL * i / N), sinl(PIL * i / N));
  cache.emplace_back(N, w);
  return cache.back().second;
}
Slots embed(const std::vector<long double>& m) {
  int N = (int)m.size(); const std::vector<Cx>& w = roots(N); Slots z(N / 2); long p = 1;
  for (int i = 0; i < N / 2; i++, p = p * 5 % (2 * N)) {
    Cx s = 0; long e = 0;
    for (int k = 0; k < N; k++, e = (e + p) % (2 * N)) s += m[k] * w[e];
    z[i] = s;
  }
  return z;
}
std::vector<long double> unembed(const Slots& z) {
  int N = (int)z.size() * 2; const std::vector<Cx>& w = roots(N); std::vector<long double> m(N, 0); long p = 1;
  for (int i = 0; i < N / 2; i++, p = p * 5 % (2 * N)) {
    long e = 0;
    for (int k = 0; k < N; k++, e = (e + p) % (2 * N)) m[k] += (z[i] * std::conj(w[e])).real();
  }
  for (auto& x : m) x = x * 2 / N;
  return m;
}
Slots slots(const Poly& a, int logq, long double scale) {
  int N = degree(a, logq); std::vector<long double> m(N);
  for (int i = 0; i < N; i++) m[i] = coeffl(a, i, logq) / scale;
  return embed(m);
}
double dist(const Slots& a, const Slots& b) {
  double d = 0;
  for (size_t i = 0; i < a.size(); i++) {
    double x = (double)std::max(fabsl(a[i].real() - b[i].real()), fabsl(a[i].imag() - b[i].imag()));
    if (!(x <= d)) d = x;
    if (x != x) return 1e308;
  }
  return d;
}
Poly poly_of(const std::vector<long double>& m, int logq) {
  int L = limbs(logq), N = (int)m.size(); Poly r((size_t)N * L, 0);
  for (int i = 0; i < N; i++) {
    long double v = roundl(fabsl(m[i])); std::vector<uint64_t> x(L, 0);
    for (int j = L - 1; j >= 0; j--) {
      long double b = ldexpl(1.0L, 64 * j);
      long double q = floorl(v / b);
      if (q > 0) { x[j] = (uint64_t)fmodl(q, 18446744073709551616.0L); v -= q * b; }
    }
    if (m[i] < 0) { std::vector<uint64_t> z(L, 0); subw(z.data(), x.data(), L); x = z; }
    x[L - 1] &= topmask(logq);
    for (int j = 0; j < L; j++) r[(size_t)i * L + j] = x[j];
  }
  return r;
}
std::string hex(const Poly& a, int i, int logq) {
  std::string s = "0x"; char b[20]; int L = limbs(logq);
  for (int j = L - 1; j >= 0; j--) { snprintf(b, sizeof b, "%016llx", (unsigned long long)a[(size_t)i * L + j]); s += b; }
  return s;
}
}  // namespace ref
