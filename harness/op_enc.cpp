// Encoding and decoding (endecode.h, matrix/DFT.h, impl/*.h).
#include "msg.h"

// a scale of at most 2^ld, mostly above 2^(ld-1): a power of two or any other number
static uint64_t gen_scale(Rng& r, int ld) { return ld < 2 || r.chance(1, 2) ? 1ull << ld : r.chance(1, 4) ? (1ull << ld) - 1 : r.chance(1, 4) ? 3ull << (ld - 2) : (1ull << ld) - r.below(1ull << (ld - 1)); }
static std::string at(uint64_t D) { return D & (D - 1) ? std::to_string(D) : "2^" + std::to_string(__builtin_ctzll(D)); }
template <int Q, int LOGN> struct Encode : LibOp {
  static const int N = 1 << LOGN;
  Box<double[N / 2]> zr, zi; Box<R_Q<Q, N>> pt; ref::Slots z; int ld = 30; uint64_t D = 1; bool viamsg = false; Box<Message<LOGN>> msg;
  void prepare(Rng& r) override {
    // scaled coefficients of any size below half the modulus and 2^64, often close to it
    int top = Q - 3 < 60 ? Q - 3 : 60, lim = Q - 1 < 64 ? Q - 1 : 64; double big = 1; ld = r.chance(1, 4) ? top : 10 + (int)r.below(top - 9);
    if (r.chance(1, 3)) { ld = r.chance(1, 4) ? (int)r.below(lim > 63 ? 64 : lim) : lim - 1 - (int)r.below(8); big = ldexp(0.98, lim - ld - (r.chance(3, 4) ? 0 : (int)r.below(3))); }
    D = gen_scale(r, ld); z = gen_slots(r, N / 2, big); put_slots(z, *zr, *zi); viamsg = r.chance(1, 2); put_slots(z, msg->r, msg->i);
  }
  void prefill(uint64_t g) override { garbage(*pt, g); }
  void run() override { if (viamsg) encode<Q, LOGN>(*msg, D, *pt); else encode<Q, LOGN>(*zr, *zi, D, *pt); }
  uint64_t out() override { Digest d; d.rq(*pt); return d.h; }
  uint64_t in() override { Digest d; d.reals(*zr, N / 2); d.reals(*zi, N / 2); d.reals(msg->r, N / 2); d.reals(msg->i, N / 2); return d.h; }
  std::string verify() override {
    ref::Poly p = to_ref(*pt); if (!ref::reduced(p, Q)) return strf("encode<%d,%d>: not reduced", Q, LOGN);
    std::vector<long double> m = ref::unembed(z);
    double tol = 0.5 + 1e-6 + supn(z) * (double)D * (LOGN + 2) * ldexp(1, -48);
    for (int i = 0; i < N; i++) {
      double e = (double)fabsl(ref::coeffl(p, i, Q) - m[i] * (long double)D); ratio = std::max(ratio, e / tol);
      if (!(e <= tol)) return strf("encode<%d,%d> at scale %s: coefficient %d is off by %g, allowed %g", Q, LOGN, at(D).c_str(), i, e, tol);
    }
    return "";
  }
};
template <int Q, int LOGN, bool LOG> struct Decode : LibOp {
  static const int N = 1 << LOGN;
  Box<double[N / 2]> zr, zi; Box<R_Q<Q, N>> pt; ref::Poly p; int ld = 30; uint64_t D = 1; bool viamsg = false; Box<Message<LOGN>> msg;
  long double scale() const { return LOG ? ldexpl(1, ld) : (long double)D; }
  void prepare(Rng& r) override {
    ld = 1 + (int)r.below(63); if (LOG && r.chance(1, 4)) ld = (int)r.below(200); if (!LOG) D = gen_scale(r, ld);
    if (r.chance(1, 3)) { p = gen_poly(r, N, Q, Q <= 900 ? gen_style(r) : PS_SMALL); }
    else {
      ref::Slots z = gen_slots(r, N / 2, 1); int s = Q - 3 < ld ? Q - 3 : ld; p = enc_slots(z, ldexpl(1, s), Q);
    }
    from_ref(p, *pt); viamsg = r.chance(1, 2);
  }
  void prefill(uint64_t g) override { garbage(*zr, g); garbage(*zi, g + 1); garbage(*msg, g + 2); }
  void run() override {
    if (LOG) { if (viamsg) decode_log<Q, LOGN>(*pt, ld, *msg); else decode_log<Q, LOGN>(*pt, ld, *zr, *zi); }
    else { if (viamsg) decode<Q, LOGN>(*pt, D, *msg); else decode<Q, LOGN>(*pt, D, *zr, *zi); }
  }
  uint64_t out() override { Digest d; d.reals(viamsg ? msg->r : *zr, N / 2); d.reals(viamsg ? msg->i : *zi, N / 2); return d.h; }
  uint64_t in() override { Digest d; d.rq(*pt); return d.h; }
  std::string verify() override {
    ref::Slots want = ref::slots(p, Q, scale()), got = viamsg ? get_slots(msg->r, msg->i, N / 2) : get_slots(*zr, *zi, N / 2);
    double tol = (double)((long double)ref::maxabs(p, Q) / scale()) * N * (LOGN + 2) * ldexp(1, -50) + 1e-300, e = ref::dist(want, got); ratio = e / tol;
    return e <= tol ? "" : strf("decode%s<%d,%d> at scale %s: off by %g, allowed %g", LOG ? "_log" : "", Q, LOGN, LOG ? ("2^" + std::to_string(ld)).c_str() : at(D).c_str(), e, tol);
  }
};
// message -> plaintext -> message, and the product of two encodings
template <int Q, int LOGN> struct RoundTrip : LibOp {
  static const int N = 1 << LOGN;
  Box<double[N / 2]> zr, zi, wr, wi, or_, oi, pr, pi_, lr, li; Box<R_Q<Q, N>> a, b, c; ref::Slots z, w; int ld = 30; uint64_t D = 1;
  void prepare(Rng& r) override {
    int top = (Q - 4 - LOGN) / 2; if (top > 50) top = 50; ld = r.chance(1, 3) ? top : 8 + (int)r.below(top - 7);
    D = gen_scale(r, ld); z = gen_slots(r, N / 2); w = gen_slots(r, N / 2); put_slots(z, *zr, *zi); put_slots(w, *wr, *wi);
  }
  void prefill(uint64_t g) override { for (auto* x : {&or_, &oi, &pr, &pi_, &lr, &li}) garbage(**x, g++); garbage(*a, g); garbage(*b, g + 1); garbage(*c, g + 2); }
  void run() override {
    encode<Q, LOGN>(*zr, *zi, D, *a); encode<Q, LOGN>(*wr, *wi, 1ull << ld, *b);
    decode<Q, LOGN>(*a, D, *or_, *oi); decode_log<Q, LOGN>(*a, ld, *lr, *li);
    conv<Q, N>(*a, *b, *c); decode_log<Q, LOGN>(*c, 2 * ld, *pr, *pi_);
  }
  uint64_t out() override { Digest d; d.rq(*a); d.rq(*b); d.rq(*c); for (auto* x : {&or_, &oi, &pr, &pi_, &lr, &li}) d.reals(**x, N / 2); return d.h; }
  uint64_t in() override { Digest d; for (auto* x : {&zr, &zi, &wr, &wi}) d.reals(**x, N / 2); return d.h; }
  std::string verify() override {
    double f = (double)D * ldexp(1, -ld), tol = N * 0.5 / (double)D * 1.01 + N * (LOGN + 2) * ldexp(1, -49);
    double e = ref::dist(z, get_slots(*or_, *oi, N / 2)); ratio = e / tol;
    if (!(e <= tol)) return strf("decode(encode(z))<%d,%d> at scale %s: off by %g, allowed %g", Q, LOGN, at(D).c_str(), e, tol);
    ref::Slots zf = z; for (auto& x : zf) x *= (long double)f;
    e = ref::dist(zf, get_slots(*lr, *li, N / 2)); ratio = std::max(ratio, e / tol);
    if (!(e <= tol)) return strf("decode_log(encode(z))<%d,%d> at scale %s: off by %g, allowed %g", Q, LOGN, at(D).c_str(), e, tol);
    ref::Slots zw(N / 2); for (int i = 0; i < N / 2; i++) zw[i] = zf[i] * w[i];
    double t2 = tol * (supn(z) + supn(w)) * 1.5 + tol * tol * 2 + N * (LOGN + 2) * ldexp(1, -49);
    e = ref::dist(zw, get_slots(*pr, *pi_, N / 2)); ratio = std::max(ratio, e / t2);
    return e <= t2 ? "" : strf("product of encodings<%d,%d> at scale %s: off by %g, allowed %g", Q, LOGN, at(D).c_str(), e, t2);
  }
};
// the floating-point plaintexts
template <int LOGN> struct Simple : LibOp {
  static const int N = 1 << LOGN;
  Box<Message<LOGN>> z, w, oz, prod; Box<SimplePlaintext<LOGN>> a, raw, b, c, rt; ref::Slots sz, sw; int ld = 30, off = 1; uint64_t D = 1;
  void prepare(Rng& r) override { ld = 1 + (int)r.below(40); off = (int)r.below(N); D = gen_scale(r, ld); sz = gen_slots(r, N / 2); sw = gen_slots(r, N / 2); put_slots(sz, z->r, z->i); put_slots(sw, w->r, w->i); }
  void prefill(uint64_t g) override { garbage(*oz, g); garbage(*prod, g + 1); garbage(*a, g + 2); garbage(*b, g + 3); garbage(*c, g + 4); garbage(*raw, g + 5); garbage(*rt, g + 6); }
  void run() override {
    encode<LOGN>(*z, D, *a); encode_raw<LOGN>(*z, D, *raw); encode<LOGN>(*w, 1ull << ld, *b); decode<LOGN>(*a, D, *oz);
    conv<LOGN>(*a, *b, *c); decode<LOGN>(*c, 1ull << (2 * ld > 63 ? 63 : 2 * ld), *prod); rotate<LOGN>(*a, *rt, off);
  }
  uint64_t out() override { Digest d; d.reals(a->data, N); d.reals(raw->data, N); d.reals(b->data, N); d.reals(c->data, N); d.reals(rt->data, N); d.reals(oz->r, N / 2); d.reals(oz->i, N / 2); d.reals(prod->r, N / 2); d.reals(prod->i, N / 2); return d.h; }
  uint64_t in() override { Digest d; d.reals(z->r, N / 2); d.reals(z->i, N / 2); d.reals(w->r, N / 2); d.reals(w->i, N / 2); return d.h; }
  std::string verify() override {
    std::vector<long double> m = ref::unembed(sz);
    double tol = 0.5 + 1e-6 + ldexp(1, ld) * (LOGN + 2) * ldexp(1, -48);
    std::vector<double> rot(N);
    for (int i = 0; i < N; i++) {
      double e = (double)fabsl(a->data[i] - m[i] * (long double)D); ratio = std::max(ratio, e / tol);
      if (!(e <= tol)) return strf("simple encode<%d> at scale %s: coefficient %d is off by %g, allowed %g", LOGN, at(D).c_str(), i, e, tol);
      e = (double)fabsl(raw->data[i] - m[i] * (long double)D);
      if (!(e <= tol - 0.5)) return strf("raw encode<%d> at scale %s: coefficient %d is off by %g", LOGN, at(D).c_str(), i, e);
      if (a->data[i] != std::round(a->data[i])) return strf("simple encode<%d>: coefficient %d is no integer", LOGN, i);
      long d = (long)i * ref::pow5(off, N) % (2 * N); rot[d % N] = d >= N ? -a->data[i] : a->data[i];
    }
    for (int i = 0; i < N; i++) if (rot[i] != rt->data[i]) return strf("rotate<%d> by %d: coefficient %d", LOGN, off, i);
    double t1 = N * 0.5 / (double)D * 1.01 + N * (LOGN + 2) * ldexp(1, -49), e = ref::dist(sz, get_slots(oz->r, oz->i, N / 2)); ratio = std::max(ratio, e / t1);
    if (!(e <= t1)) return strf("simple decode(encode(z))<%d> at scale %s: off by %g, allowed %g", LOGN, at(D).c_str(), e, t1);
    long double f = ldexpl(1, 2 * ld > 63 ? 2 * ld - 63 : 0);
    ref::Slots zw(N / 2); for (int i = 0; i < N / 2; i++) zw[i] = sz[i] * sw[i] * f * ((long double)D * ldexpl(1, -ld));
    double t2 = (t1 * (supn(sz) + supn(sw)) * 1.5 + t1 * t1 * 2 + N * N * ldexp(1, -50)) * (double)f;
    e = ref::dist(zw, get_slots(prod->r, prod->i, N / 2)); ratio = std::max(ratio, e / t2);
    return e <= t2 ? "" : strf("simple product<%d> at scale %s: off by %g, allowed %g", LOGN, at(D).c_str(), e, t2);
  }
};
// the transforms themselves, and the two plain DFTs
template <int LOGN> struct Fft : LibOp {
  static const int N = 1 << LOGN;
  Box<double[N]> m, back, nr, m2; Box<double[N / 2]> zr, zi, dr, di, sr, si; ref::Slots z; std::vector<long double> lm;
  void prepare(Rng& r) override {
    lm.resize(N); for (int i = 0; i < N; i++) { (*m)[i] = r.chance(1, 4) ? 0 : 2 * r.unit() - 1; lm[i] = (*m)[i]; }
    z = gen_slots(r, N / 2); put_slots(z, *sr, *si);
  }
  void prefill(uint64_t g) override { garbage(*zr, g); garbage(*zi, g + 1); garbage(*dr, g + 2); garbage(*di, g + 3); garbage(*back, g + 4); garbage(*m2, g + 5); }
  void run() override { fft<LOGN>(*m, *zr, *zi); dft<N>(*m, *dr, *di); ifft<LOGN>(*sr, *si, *back); idft<N>(*sr, *si, *m2); }
  uint64_t out() override { Digest d; for (auto* x : {&zr, &zi, &dr, &di}) d.reals(**x, N / 2); d.reals(*back, N); d.reals(*m2, N); return d.h; }
  uint64_t in() override { Digest d; d.reals(*m, N); d.reals(*sr, N / 2); d.reals(*si, N / 2); return d.h; }
  std::string verify() override {
    ref::Slots want = ref::embed(lm); double tol = N * (LOGN + 2) * ldexp(1, -48), e = ref::dist(want, get_slots(*zr, *zi, N / 2)), e2 = ref::dist(want, get_slots(*dr, *di, N / 2));
    ratio = std::max(e, e2) / tol;
    if (!(e <= tol)) return strf("fft<%d>: off by %g, allowed %g", LOGN, e, tol);
    if (!(e2 <= tol)) return strf("dft<%d>: off by %g, allowed %g", N, e2, tol);
    std::vector<long double> wm = ref::unembed(z);
    for (int i = 0; i < N; i++) {
      if (!(fabsl((*back)[i] - wm[i]) <= tol)) return strf("ifft<%d>: coefficient %d is off by %g", LOGN, i, (double)fabsl((*back)[i] - wm[i]));
      if (!(fabsl((*m2)[i] - wm[i]) <= tol)) return strf("idft<%d>: coefficient %d is off by %g", N, i, (double)fabsl((*m2)[i] - wm[i]));
    }
    return "";
  }
};
// large degrees: some coefficients and slots from the definition, all of them by the way back
template <int Q, int LOGN> struct BigEnc : LibOp {
  static const int N = 1 << LOGN;
  Box<double[N / 2]> zr, zi, br, bi, dr, di; Box<R_Q<Q, N>> pt, in_; Box<Message<LOGN>> msg, back; Box<SimplePlaintext<LOGN>> sp; ref::Slots z; ref::Poly p; int ld = 30; uint64_t D = 1; std::vector<int> at_;
  void prepare(Rng& r) override {
    int top = Q - 3 < 50 ? Q - 3 : 50; ld = 10 + (int)r.below(top - 9); D = gen_scale(r, ld); z = gen_slots(r, N / 2); put_slots(z, *zr, *zi); put_slots(z, msg->r, msg->i);
    p = gen_poly(r, N, Q, gen_style(r)); from_ref(p, *in_);
    at_ = {0, 1, N / 2 - 1, N / 2, N - 1}; for (int i = 0; i < 16; i++) at_.push_back((int)r.below(N));
  }
  void prefill(uint64_t g) override { for (auto* x : {&br, &bi, &dr, &di}) garbage(**x, g++); garbage(*pt, g); garbage(*sp, g + 1); garbage(*back, g + 2); }
  void run() override { encode<Q, LOGN>(*zr, *zi, D, *pt); decode<Q, LOGN>(*pt, D, *br, *bi); decode_log<Q, LOGN>(*in_, ld, *dr, *di); encode<LOGN>(*msg, D, *sp); decode<LOGN>(*sp, D, *back); }
  uint64_t out() override { Digest d; d.rq(*pt); d.reals(sp->data, N); for (auto* x : {&br, &bi, &dr, &di}) d.reals(**x, N / 2); d.reals(back->r, N / 2); d.reals(back->i, N / 2); return d.h; }
  uint64_t in() override { Digest d; d.reals(*zr, N / 2); d.reals(*zi, N / 2); d.reals(msg->r, N / 2); d.reals(msg->i, N / 2); d.rq(*in_); return d.h; }
  std::string verify() override {
    ref::Poly q = to_ref(*pt); if (!ref::reduced(q, Q)) return strf("encode<%d,%d>: not reduced", Q, LOGN);
    std::vector<long double> cs(2 * N); for (int i = 0; i < 2 * N; i++) cs[i] = cosl(3.14159265358979323846264338327950288L * i / N);   // cos(pi i / N); sin is N/2 behind
    auto co = [&](long k) { return cs[k & (2 * N - 1)]; }; auto si = [&](long k) { return cs[(k + 2 * N - N / 2) & (2 * N - 1)]; };
    double tol = 0.5 + 1e-6 + (double)D * (LOGN + 2) * ldexp(1, -46);
    for (int k : at_) {
      long double m = 0; long e = 1; for (int j = 0; j < N / 2; j++, e = e * 5 % (2 * N)) m += z[j].real() * co(e * k) + z[j].imag() * si(e * k);
      m *= 2 / (long double)N * (long double)D; double x = (double)fabsl(ref::coeffl(q, k, Q) - m), y = (double)fabsl(sp->data[k] - m); ratio = std::max(ratio, x / tol);
      if (!(x <= tol)) return strf("encode<%d,%d> at scale %s: coefficient %d is off by %g, allowed %g", Q, LOGN, at(D).c_str(), k, x, tol);
      if (!(y <= tol)) return strf("simple encode<%d> at scale %s: coefficient %d is off by %g, allowed %g", LOGN, at(D).c_str(), k, y, tol);
    }
    double t1 = N * 0.5 / (double)D * 1.01 + N * (LOGN + 2) * ldexp(1, -46), e1 = ref::dist(z, get_slots(*br, *bi, N / 2)), e2 = ref::dist(z, get_slots(back->r, back->i, N / 2));
    if (!(e1 <= t1)) return strf("decode(encode(z))<%d,%d> at scale %s: off by %g, allowed %g", Q, LOGN, at(D).c_str(), e1, t1);
    if (!(e2 <= t1)) return strf("simple decode(encode(z))<%d> at scale %s: off by %g, allowed %g", LOGN, at(D).c_str(), e2, t1);
    double t2 = (double)(ref::maxabs(p, Q) * ldexpl(1, -ld)) * N * (LOGN + 2) * ldexp(1, -48) + 1e-300; std::vector<long double> m(N); for (int i = 0; i < N; i++) m[i] = ref::coeffl(p, i, Q) * ldexpl(1, -ld);
    for (int k : at_) {
      int j = k % (N / 2); long e = ref::pow5(j, N); long double a = 0, b = 0; for (int i = 0; i < N; i++) a += m[i] * co(e * i), b += m[i] * si(e * i);
      double x = (double)std::max(fabsl(a - (*dr)[j]), fabsl(b - (*di)[j])); ratio = std::max(ratio, x / t2);
      if (!(x <= t2)) return strf("decode_log<%d,%d> at scale 2^%d: slot %d is off by %g, allowed %g", Q, LOGN, ld, j, x, t2);
    }
    return "";
  }
};
#define SH2(T, Q, N, G, C, F) OPREG(#T "<" #Q "," #N ">", G, C, F, T<Q, N>)
#define ENF(Q, L, C) SH2(Encode, Q, L, "endec", C, OP_TABLE) OPREG("Decode<" #Q "," #L ">", "endec", C, OP_TABLE, Decode<Q, L, false>) OPREG("DecodeLog<" #Q "," #L ">", "endec", C, OP_TABLE, Decode<Q, L, true>)
#define RTF(Q, L, C) SH2(RoundTrip, Q, L, "endec", C, OP_TABLE | OP_ALLOC | OP_OMP)
#define SIF(L, C) OPREG("Simple<" #L ">", "endec", C, OP_TABLE, Simple<L>) OPREG("Fft<" #L ">", "endec", C, OP_TABLE, Fft<L>)
#ifdef OPS_BIG
ENF(60, 9, 10) ENF(120, 10, 30) ENF(64, 11, 90) ENF(100, 12, 300) ENF(700, 8, 6) RTF(120, 9, 40) RTF(100, 10, 80) SIF(8, 10) SIF(9, 40)
OPREG("Simple<10>", "endec", 60, OP_TABLE, Simple<10>) ENF(62, 1, 1) RTF(62, 1, 2) SIF(1, 1)
SH2(BigEnc, 61, 13, "endec", 40, OP_TABLE) SH2(BigEnc, 130, 14, "endec", 80, OP_TABLE) SH2(BigEnc, 64, 16, "endec", 300, OP_TABLE)
#elif defined(OPS_MID)
ENF(64, 9, 50) ENF(120, 10, 80) RTF(100, 6, 60) SIF(8, 80) SIF(6, 20) ENF(700, 5, 40)
#elif !defined(OPS_SMALL)
ENF(61, 2, 1) ENF(64, 3, 1) ENF(65, 3, 1) ENF(128, 4, 1) ENF(250, 5, 2) ENF(640, 4, 2) ENF(1450, 3, 2) ENF(30, 6, 2) ENF(90, 7, 3) ENF(63, 4, 1)
RTF(64, 3, 8) RTF(100, 4, 8) RTF(120, 5, 10) RTF(128, 2, 8)
SIF(2, 1) SIF(3, 1) SIF(4, 2) SIF(5, 3) SIF(6, 5)
#else
ENF(64, 3, 1) ENF(130, 4, 1) ENF(100, 5, 2) RTF(100, 3, 8) SIF(3, 1) SIF(4, 2)
#endif
