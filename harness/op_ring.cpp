// Ring products (include/HEAAN/arith/conv.h).
#include "kit.h"

template <int Q, int N> struct RingMul : LibOp {
  Box<R_Q<Q, N>> A, B, C; ref::Poly a, b;
  void prepare(Rng& r) override {
    // also both factors of extreme size, so that the product has the largest coefficients there are
    static const int ext[] = {PS_HALF, PS_HALFM1, PS_NEARHALF, PS_HALF}; bool big = r.chance(1, 5);
    a = gen_poly(r, N, Q, big ? ext[r.below(4)] : gen_style(r)); b = gen_poly(r, N, Q, big ? ext[r.below(4)] : gen_style(r)); from_ref(a, *A); from_ref(b, *B);
  }
  void prefill(uint64_t g) override { garbage(*C, g); }
  void run() override { conv<Q, N>(*A, *B, *C); }
  uint64_t out() override { Digest d; d.rq(*C); return d.h; }
  uint64_t in() override { Digest d; d.rq(*A); d.rq(*B); return d.h; }
  std::string verify() override {
    ref::Poly c = to_ref(*C), e; const int L = (Q + 63) / 64;
    if (N > 1024) {      // a sample of the coefficients, both ends included
      Rng r(ref::hash(a)); std::vector<uint64_t> x(L);
      for (int k = 0; k < (N > 20000 ? 24 : 64); k++) {
        int i = k == 0 ? 0 : k == 1 ? N - 1 : (int)r.below(N);
        ref::mul_coeff(a, b, i, Q, x.data());
        if (memcmp(x.data(), &c[(size_t)i * L], 8 * L)) return strf("R_Q<%d,%d> product: coefficient %d is %.60s", Q, N, i, ref::hex(c, i, Q).c_str());
      }
      return ref::reduced(c, Q) ? "" : strf("R_Q<%d,%d> product: not reduced", Q, N);
    }
    e = ref::mul(a, b, Q);
    for (int i = 0; i < N; i++) for (int j = 0; j < (Q + 63) / 64; j++)
      if (c[(size_t)i * ((Q + 63) / 64) + j] != e[(size_t)i * ((Q + 63) / 64) + j])
        return strf("R_Q<%d,%d> product: coefficient %d is %.60s, should be %.60s", Q, N, i, ref::hex(c, i, Q).c_str(), ref::hex(e, i, Q).c_str());
    return "";
  }
};
template <int Q, int N> struct KeyMul : LibOp {
  Box<int[N]> s; Box<R_Q<Q, N>> A, C; ref::Poly a; ref::Key k;
  void prepare(Rng& r) override { k = gen_key(r, N, gen_h(r, N)); a = gen_poly(r, N, Q, gen_style(r)); from_key(k, *s); from_ref(a, *A); }
  void prefill(uint64_t g) override { garbage(*C, g); }
  void run() override { conv<Q, N>(*s, *A, *C); }
  uint64_t out() override { Digest d; d.rq(*C); return d.h; }
  uint64_t in() override { Digest d; d.ints(*s, N); d.rq(*A); return d.h; }
  std::string verify() override {
    ref::Poly c = to_ref(*C), e = ref::mulkey(k, a, Q);
    for (int i = 0; i < N; i++) for (int j = 0; j < (Q + 63) / 64; j++)
      if (c[(size_t)i * ((Q + 63) / 64) + j] != e[(size_t)i * ((Q + 63) / 64) + j])
        return strf("ternary x R_Q<%d,%d> product: coefficient %d is %.60s, should be %.60s", Q, N, i, ref::hex(c, i, Q).c_str(), ref::hex(e, i, Q).c_str());
    return "";
  }
};
template <int N> struct KeyKey : LibOp {
  Box<int[N]> s, t, u; ref::Key a, b;
  void prepare(Rng& r) override { a = gen_key(r, N, gen_h(r, N)); b = gen_key(r, N, gen_h(r, N)); from_key(a, *s); from_key(b, *t); }
  void prefill(uint64_t g) override { garbage(*u, g); }
  void run() override { conv<N>(*s, *t, *u); }
  uint64_t out() override { Digest d; d.ints(*u, N); return d.h; }
  uint64_t in() override { Digest d; d.ints(*s, N); d.ints(*t, N); return d.h; }
  std::string verify() override { return to_key(*u, N) == ref::mulkey(a, b) ? "" : strf("product of two ternary elements of degree %d is wrong", N); }
};
#define RM(Q, N, G, C) OPREG("RingMul<" #Q "," #N ">", G, C, OP_ALLOC | OP_TABLE | OP_OMP, RingMul<Q, N>)
#define KM(Q, N, G, C) OPREG("KeyMul<" #Q "," #N ">", G, C, OP_OMP, KeyMul<Q, N>)
#ifdef OPS_SMALL      // for checks that only need a few
RM(64, 8, "ring", 3) RM(100, 8, "ring", 6) RM(62, 16, "ring", 5) KM(65, 8, "ring", 1) KM(128, 8, "ring", 1)
#elif defined(OPS_MID)
RM(64, 256, "ring", 60) RM(130, 128, "ring", 60) RM(61, 1024, "ring", 90) RM(500, 16, "ring", 60) KM(62, 1024, "ring", 60) KM(250, 128, "ring", 40) OPREG("KeyKey<256>", "ring", 20, 0, KeyKey<256>)
#elif !defined(RING_BIG)
RM(61, 8, "ring", 3) RM(62, 4, "ring", 3) RM(63, 16, "ring", 4) RM(64, 8, "ring", 3) RM(65, 16, "ring", 4) RM(100, 32, "ring", 6)
RM(127, 8, "ring", 4) RM(128, 16, "ring", 5) RM(129, 4, "ring", 4) RM(191, 8, "ring", 5) RM(192, 32, "ring", 9) RM(250, 16, "ring", 8) RM(320, 8, "ring", 8)
RM(600, 8, "ring", 20) RM(1000, 4, "ring", 30) RM(1450, 4, "ring", 60) RM(30, 16, "ring", 3) RM(8, 4, "ring", 2) RM(21, 64, "ring", 6)
RM(64, 2, "ring", 2) RM(60, 16, "ring", 4) RM(90, 8, "ring", 4) RM(120, 64, "ring", 12)
KM(61, 8, "ring", 1) KM(64, 16, "ring", 1) KM(65, 4, "ring", 1) KM(128, 32, "ring", 2) KM(192, 8, "ring", 1) KM(250, 16, "ring", 2) KM(1450, 4, "ring", 2) KM(33, 64, "ring", 3) KM(600, 16, "ring", 3)
KM(8, 8, "ring", 1) KM(2, 4, "ring", 1)
OPREG("KeyKey<8>", "ring", 1, 0, KeyKey<8>) OPREG("KeyKey<32>", "ring", 1, 0, KeyKey<32>)
#else
RM(62, 64, "ring", 10) RM(64, 256, "ring", 30) RM(128, 512, "ring", 90) RM(250, 128, "ring", 60) RM(500, 64, "ring", 90) RM(1450, 32, "ring", 150)
RM(60, 1024, "ring", 80) RM(30, 128, "ring", 10) RM(20, 8, "ring", 5) RM(2900, 8, "ring", 200) RM(1200, 16, "ring", 100) RM(3020, 4, "ring", 200)
// moduli at which the product of the primes leaves little room for these degrees
RM(59, 16, "ring", 4) RM(58, 64, "ring", 8) RM(57, 256, "ring", 25) RM(56, 1024, "ring", 80) RM(85, 4096, "ring", 200) RM(54, 16384, "ring", 300) RM(53, 65536, "ring", 600) RM(119, 16, "ring", 6) RM(86, 1024, "ring", 90)
RM(900, 64, "ring", 150) RM(64, 2048, "ring", 200) RM(720, 32, "ring", 100) RM(60, 4096, "ring", 200) RM(53, 16384, "ring", 300) RM(52, 131072, "ring", 900) RM(128, 8192, "ring", 400)
KM(62, 1024, "ring", 30) KM(250, 256, "ring", 20) KM(1450, 64, "ring", 10) KM(2900, 16, "ring", 10) KM(500, 512, "ring", 40) KM(62, 4096, "ring", 100)
OPREG("KeyKey<256>", "ring", 5, 0, KeyKey<256>)
#endif
