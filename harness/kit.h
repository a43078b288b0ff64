// Glue between the library's types and the reference model.
#pragma once
#include "HEAAN/bootstrap.h"
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#include "impl/plaintext.h"
#include "op.h"
#include "../ref/ref.h"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <memory>
#include <new>

using sim::Rng;
#define NOSAN __attribute__((no_sanitize("thread")))

inline std::string strf(const char* f, ...) {
  char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

// ---------------------------------------------------------------- conversions
template <int Q, int N> NOSAN ref::Poly to_ref(const R_Q<Q, N>& a) {
  const int L = (Q + 63) / 64; ref::Poly r((size_t)N * L);
  for (int i = 0; i < N; i++) for (int j = 0; j < L; j++) r[(size_t)i * L + j] = a.coeff[i].data[j];
  return r;
}
template <int Q, int N> NOSAN void from_ref(const ref::Poly& p, R_Q<Q, N>& a) {
  const int L = (Q + 63) / 64;
  for (int i = 0; i < N; i++) for (int j = 0; j < L; j++) a.coeff[i].data[j] = p[(size_t)i * L + j];
}
inline ref::Key to_key(const int* s, int N) { return ref::Key(s, s + N); }
inline void from_key(const ref::Key& k, int* s) { for (size_t i = 0; i < k.size(); i++) s[i] = k[i]; }
template <int Q, int N> ref::Poly ref_dec(const R_Q_square<Q, N>& ct, const ref::Key& s) {
  return ref::dec(to_ref(ct.data[0]), to_ref(ct.data[1]), s, Q);
}
template <int Q, int N> bool is_reduced(const R_Q_square<Q, N>& ct) {
  return ref::reduced(to_ref(ct.data[0]), Q) && ref::reduced(to_ref(ct.data[1]), Q);
}

// ---------------------------------------------------------------- generators (no library code)
enum PolyStyle { PS_UNIFORM, PS_ZERO, PS_MAX, PS_HALF, PS_HALFM1, PS_LIMBS, PS_SPARSE, PS_SMALL, PS_ONE, PS_BITS, PS_PRIMES, PS_NEARHALF, PS_NSTYLE };
inline ref::Poly gen_poly(Rng& r, int N, int logq, int style) {
  int L = ref::limbs(logq); ref::Poly p((size_t)N * L, 0);
  uint64_t top = logq % 64 ? (~0ull >> (64 - logq % 64)) : ~0ull;
  for (int i = 0; i < N; i++) {
    uint64_t* x = &p[(size_t)i * L];
    int st = style;
    if (style == PS_SPARSE) st = r.chance(1, 4) ? (int)r.below(6) : PS_ZERO;
    switch (st) {
      case PS_UNIFORM: for (int j = 0; j < L; j++) x[j] = r.next(); break;
      case PS_ZERO: break;
      case PS_MAX: for (int j = 0; j < L; j++) x[j] = ~0ull; break;
      case PS_HALF: x[(logq - 1) / 64] = 1ull << ((logq - 1) % 64); break;
      case PS_HALFM1: for (int j = 0; j < L; j++) x[j] = ~0ull; x[(logq - 1) / 64] &= ~(1ull << ((logq - 1) % 64)); break;
      case PS_LIMBS:
        for (int j = 0; j < L; j++) {
          static const uint64_t v[] = {0, ~0ull, 1, 1ull << 63, 0xFFFFFFFFull, 0xFFFFFFFF00000000ull};
          int k = (int)r.below(8); x[j] = k < 6 ? v[k] : r.next();
        }
        break;
      case PS_SMALL: { int64_t v = (int64_t)r.below(17) - 8; for (int j = 0; j < L; j++) x[j] = j ? (v < 0 ? ~0ull : 0) : (uint64_t)v; break; }
      case PS_ONE: if (i == 0) x[0] = 1; break;
      case PS_PRIMES: {   // multiples of the library's first RNS primes, either sign
        static const uint64_t q[] = {0xffffffffffc0001ULL, 0xfffffffff840001ULL, 0x1000000000980001ULL, 0x1000000000b00001ULL};
        unsigned __int128 v = (unsigned __int128)q[r.below(4)] * (logq > 64 ? 1 + r.below(1000) : 1 + r.below(3)); bool ng = r.chance(2, 3);
        if (logq < 62) v = q[r.below(4)] % ((unsigned __int128)1 << (logq - 1));
        if (ng) v = -v;
        for (int j = 0; j < L; j++) x[j] = j == 0 ? (uint64_t)v : j == 1 ? (uint64_t)(v >> 64) : (ng ? ~0ull : 0);
        break;
      }
      case PS_NEARHALF: {
        int64_t d = (int64_t)r.below(7) - 3; int b = logq - 1;
        for (int j = 0; j < L; j++) x[j] = j == 0 ? (uint64_t)d : (d < 0 ? ~0ull : 0);
        x[b / 64] ^= 1ull << (b % 64);
        break;
      }
      case PS_BITS: { int b = (int)r.below(logq); for (int j = 0; j < L; j++) x[j] = 64 * j < b ? ~0ull : 0; if (r.chance(1, 2)) { for (int j = 0; j < L; j++) x[j] = 0; x[b / 64] = 1ull << (b % 64); } break; }
    }
    x[L - 1] &= top;
  }
  return p;
}
inline int gen_style(Rng& r) { return r.chance(1, 2) ? PS_UNIFORM : (int)r.below(PS_NSTYLE); }
inline ref::Key gen_key(Rng& r, int N, int h) {
  ref::Key s(N, 0);
  if (h > N) h = N;
  for (int i = 0; i < h;) { int j = (int)r.below(N); if (s[j]) continue; s[j] = r.chance(1, 2) ? 1 : -1; i++; }
  return s;
}
inline int gen_h(Rng& r, int N) { int k = (int)r.below(6); return k == 0 ? 1 : k == 1 ? N : k == 2 ? 0 : 1 + (int)r.below(N); }
// rotation amounts: often small ones that operations of different degree have in common, also beyond a full turn
inline int gen_off(Rng& r, int N) { int k = (int)r.below(8); return k < 3 ? (int)r.below(5) : k == 3 ? (int)r.below(3 * N) : k == 4 ? N / 2 - (int)r.below(2) : (int)r.below(N / 2); }
// error polynomial with coefficients in -8..8; style 0 random, 1 all +8, 2 all -8, 3 zero
inline ref::Poly gen_err(Rng& r, int N, int logq, int style) {
  int L = ref::limbs(logq); ref::Poly p((size_t)N * L, 0);
  uint64_t top = logq % 64 ? (~0ull >> (64 - logq % 64)) : ~0ull;
  for (int i = 0; i < N; i++) {
    int64_t v = style == 0 ? (int64_t)r.below(17) - 8 : style == 1 ? 8 : style == 2 ? -8 : 0;
    for (int j = 0; j < L; j++) p[(size_t)i * L + j] = j ? (v < 0 ? ~0ull : 0) : (uint64_t)v;
    p[(size_t)i * L + L - 1] &= top;
  }
  return p;
}
inline int gen_estyle(Rng& r) { return r.chance(1, 2) ? 0 : (int)r.below(4); }
template <int Q, int N> double ref_enc(Rng& r, const ref::Poly& pt, const ref::Key& s, R_Q_square<Q, N>& ct, int maskstyle = -1, int estyle = -1) {
  if (maskstyle < 0) maskstyle = r.chance(1, 8) ? (r.chance(2, 3) ? PS_ZERO : PS_SPARSE) : PS_UNIFORM;   // also ciphertexts without a mask
  ref::Poly a = gen_poly(r, N, Q, maskstyle); if (estyle < 0) estyle = gen_estyle(r);
  ref::Poly b = ref::sub(ref::add(pt, gen_err(r, N, Q, estyle), Q), ref::mulkey(s, a, Q), Q);
  from_ref(b, ct.data[0]); from_ref(a, ct.data[1]); return estyle == 3 ? 0 : 8;   // the largest error it may have
}
inline ref::Poly key_poly(const ref::Key& s, int logq) {
  int L = ref::limbs(logq), N = (int)s.size(); ref::Poly p((size_t)N * L, 0);
  uint64_t top = logq % 64 ? (~0ull >> (64 - logq % 64)) : ~0ull;
  for (int i = 0; i < N; i++) { for (int j = 0; j < L; j++) p[(size_t)i * L + j] = j ? (s[i] < 0 ? ~0ull : 0) : (uint64_t)(int64_t)s[i]; p[(size_t)i * L + L - 1] &= top; }
  return p;
}
// a switching key; returns the largest magnitude its error may have: 0 for a noiseless one, which leaves a switch nothing but its roundings
template <int Q, int N> double ref_swk(Rng& r, const ref::Key& fr, const ref::Key& to, R_Q_square<2 * Q, N>& swk) {
  int es = r.chance(1, 3) ? 3 : gen_estyle(r);
  return ref_enc<2 * Q, N>(r, ref::shl(key_poly(fr, Q), Q, 2 * Q), to, swk, gen_style(r) == PS_UNIFORM ? PS_UNIFORM : PS_LIMBS, es);
}
inline int norm1(const ref::Key& s) { int n = 0; for (int x : s) n += x < 0 ? -x : x; return n; }
// worst-case error of one key switch, per coefficient
inline double ks_bound(int N, const ref::Key& s, double emax = 8) { return emax * N + (1 + norm1(s)) / 2.0 + 0.01; }

// ---------------------------------------------------------------- digests
struct Digest {
  uint64_t h = 0x9E3779B97F4A7C15ull;
  void word(uint64_t w) { h = (h ^ w) * 0x100000001B3ull; h ^= h >> 31; }
  void poly(const ref::Poly& p) { word(ref::hash(p)); }
  template <int Q, int N> void rq(const R_Q<Q, N>& a) { box_touch(&a); poly(to_ref(a)); }
  template <int Q, int N> void ct(const R_Q_square<Q, N>& a) { rq(a.data[0]); rq(a.data[1]); }
  void reals(const double* d, size_t n) { box_touch(d); word(ref::hash(d, n)); }
  void ints(const int* d, size_t n) { box_touch(d); for (size_t i = 0; i < n; i++) word((uint64_t)(int64_t)d[i]); }
  template <class SD> void diag(const SD& m, int S, int n) { for (int s = 0; s < S; s++) { reals(m.vec[s], n); word(m.off[s]); word(m.zero[s]); } }
};
template <class T> void garbage(T& t, uint64_t seed) { sim::fill_garbage((void*)&t, sizeof t, seed); }
template <class T> struct Box {   // a library object in memory of its own, contents undefined at first
  T* p;
  Box() { p = (T*)box_alloc(sizeof(T)); box_slot((void**)&p); }        // every library type here is trivially usable raw memory
  ~Box() { box_free(p); }
  Box(const Box&) = delete; void operator=(const Box&) = delete;
  T& operator*() { return *p; } const T& operator*() const { return *p; } T* operator->() { return p; } const T* operator->() const { return p; }
};
