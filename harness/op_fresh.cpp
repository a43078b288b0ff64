// Key generation, encryption and switching keys, with their randomness extracted.
#include "kit.h"
#include "fresh.h"
std::vector<FreshFactory>& fresh_catalog() { static std::vector<FreshFactory> v; return v; }
struct FReg { FReg(const char* n, Fresh* (*m)()) { fresh_catalog().push_back({n, m}); } };
inline std::vector<long> centred(const ref::Poly& p, int N, int logq) { std::vector<long> v; for (int i = 0; i < N; i++) v.push_back(lrint(ref::coeff(p, i, logq))); return v; }

template <int N_> struct FKey : Fresh {
  Box<int[N_]> s;
  FKey() { kind = 0; N = N_; }
  void prepare(Rng& r, Rng&) override { h = r.chance(1, 2) ? N_ / 2 : N_ / 4; garbage(*s, r.next()); }
  void run() override { HEAAN<64, N_>::keygen(h, *s); }
  std::vector<int> key() override { return to_key(*s, N_); }
};
template <int Q_, int N_> struct FEnc : Fresh {
  Box<R_Q<Q_, N_>> pt; Box<int[N_]> s; Box<R_Q_square<Q_, N_>> ct; ref::Poly m; ref::Key k; bool lib;
  FEnc(bool lib_ = false) : lib(lib_) { kind = lib ? 3 : 1; N = N_; logq = Q_; }
  void prepare(Rng& r, Rng& pl) override { h = N_ > 600 ? 300 : N_ / 2; k = gen_key(r, N_, h); from_key(k, *s); garbage(*ct, r.next()); m = gen_poly(pl, N_, Q_, gen_style(pl)); from_ref(m, *pt); }
  void run() override { if (lib) HEAAN<Q_, N_>::keygen(h, *s); HEAAN<Q_, N_>::enc(*pt, *s, *ct); }
  ref::Poly mask() override { return to_ref(ct->data[1]); }
  ref::Poly body() override { return to_ref(ct->data[0]); }
  ref::Poly plain() override { return m; }
  std::vector<long> err() override { return centred(ref::sub(ref_dec(*ct, to_key(*s, N_)), m, Q_), N_, Q_); }
  std::vector<int> key() override { return lib ? to_key(*s, N_) : std::vector<int>(); }
};
template <int Q_, int N_> struct FKeyEnc : FEnc<Q_, N_> { FKeyEnc() : FEnc<Q_, N_>(true) {} };
template <int Q_, int N_> struct FSwk : Fresh {
  Box<int[N_]> f, t; Box<R_Q_square<2 * Q_, N_>> swk; ref::Key fr, to;
  FSwk() { kind = 2; N = N_; logq = 2 * Q_; }
  void prepare(Rng& r, Rng& pl) override {
    to = gen_key(r, N_, N_ > 600 ? 300 : N_ / 2); fr = gen_key(pl, N_, 1 + (int)pl.below(N_ > 600 ? 600 : N_)); int c = (int)pl.below(3);
    if (c == 0) fr = ref::mulkey(to, to); if (c == 1) fr = to;
    from_key(fr, *f); from_key(to, *t); garbage(*swk, r.next());
  }
  void run() override { HEAAN<Q_, N_>::swkgen(*f, *t, *swk); }
  ref::Poly mask() override { return to_ref(swk->data[1]); }
  ref::Poly body() override { return to_ref(swk->data[0]); }
  ref::Poly plain() override { return ref::shl(key_poly(fr, Q_), Q_, 2 * Q_); }
  std::vector<long> err() override { return centred(ref::sub(ref_dec(*swk, to), plain(), 2 * Q_), N_, 2 * Q_); }
};
#define FR_(id, ...) static FReg fr_##id(#__VA_ARGS__, []() -> Fresh* { return new __VA_ARGS__; });
#define FR__(id, ...) FR_(id, __VA_ARGS__)
#define FR(...) FR__(__COUNTER__, __VA_ARGS__)
#ifdef OPS_BIG
FR(FKey<1024>) FR(FKey<4096>) FR(FKey<32768>) FR(FEnc<64, 1024>) FR(FEnc<62, 4096>) FR(FEnc<200, 512>) FR(FEnc<128, 8192>) FR(FEnc<2900, 16>) FR(FKeyEnc<64, 2048>) FR(FSwk<62, 1024>) FR(FSwk<61, 4096>) FR(FSwk<600, 256>)
#else
FR(FKey<16>) FR(FKey<64>) FR(FKey<128>) FR(FKey<37>)
FR(FEnc<64, 32>) FR(FEnc<61, 32>) FR(FEnc<65, 64>) FR(FEnc<130, 32>) FR(FEnc<192, 64>) FR(FEnc<600, 32>) FR(FEnc<1450, 32>) FR(FEnc<30, 64>) FR(FEnc<96, 128>) FR(FEnc<1000, 4>) FR(FEnc<64, 1>) FR(FEnc<127, 16>)
FR(FKeyEnc<64, 32>) FR(FKeyEnc<100, 64>) FR(FKeyEnc<250, 32>)
FR(FSwk<32, 32>) FR(FSwk<61, 32>) FR(FSwk<64, 64>) FR(FSwk<100, 32>) FR(FSwk<300, 32>) FR(FSwk<725, 32>)
#endif
