// Sweeps over moduli: the same operations at many modulus sizes, chosen at run time, so that every residue of the
// size modulo the word length, and every relation between two sizes, is met. Small degree; for uninstrumented builds.
#include "kit.h"
#include <utility>
#ifndef SWEEP_SET
#define SWEEP_SET 1
#endif
#define SWEEP_NS2(x) sweep##x
#define SWEEP_NS(x) SWEEP_NS2(x)
namespace SWEEP_NS(SWEEP_SET) {
static const int N = 8;
// 64 sizes, one per residue modulo 64, from 20 to 335, then the ends of the first words
constexpr int NQ = 80;
constexpr int size_at(int i) { return i < 64 ? 20 + 5 * i : i < 72 ? 60 + (i - 64) : i < 76 ? 126 + (i - 72) : i == 76 ? 448 : i == 77 ? 511 : i == 78 ? 9 : 513; }
// pairs of sizes: around word boundaries first, then scattered
constexpr int NP = 600;
constexpr int edge(int k) { return 64 * (1 + k / 3) + k % 3 - 1; }
constexpr int hi_at(int i) { return i < 144 ? edge(i / 12) : 3 + (i * 37 + i / 11) % 397; }
constexpr int lo_at(int i) { return i < 144 ? edge(i % 12) : 2 + (i * 151 + i / 7) % (hi_at(i) - 1); }
constexpr int big_at(int i) { return hi_at(i) > lo_at(i) ? hi_at(i) : lo_at(i); }
constexpr int small_at(int i) { return hi_at(i) > lo_at(i) ? lo_at(i) : hi_at(i); }

struct Words {      // raw memory of an object of the library
  uint64_t* p = nullptr; size_t n = 0;
  void size(size_t k) { n = k; p = (uint64_t*)box_alloc(8 * k); }
  ~Words() { if (p) box_free(p); }
  Words() {} Words(const Words&) = delete; void operator=(const Words&) = delete;
  void put(const ref::Poly& a, size_t at = 0) { for (size_t i = 0; i < a.size(); i++) p[at + i] = a[i]; }
  ref::Poly get(size_t at, size_t k) const { return ref::Poly(p + at, p + at + k); }
  ref::Poly half(int h) const { return get(h * n / 2, n / 2); }
  void fill(uint64_t g) { sim::fill_garbage(p, 8 * n, g); }
};
inline size_t words(int q, int n) { return (size_t)n * ((q + 63) / 64); }
template <int Q> R_Q<Q, N>& rq(uint64_t* p) { return *(R_Q<Q, N>*)p; }
template <int Q> R_Q_square<Q, N>& ct(uint64_t* p) { return *(R_Q_square<Q, N>*)p; }
template <int Q> R_Q_square<Q, 2>& ct2(uint64_t* p) { return *(R_Q_square<Q, 2>*)p; }

#if SWEEP_SET == 2 || SWEEP_SET == 3 || SWEEP_SET == 5
typedef void (*PairFn)(uint64_t* a, uint64_t* b);
#if SWEEP_SET == 2
template <int I> void pair_fn(uint64_t* a, uint64_t* b) { RS<big_at(I), small_at(I), 2>(ct2<big_at(I)>(a), ct2<small_at(I)>(b)); }
#else
template <int I> void pair_fn(uint64_t* a, uint64_t* b) {
  if (I % 3 == 0) resize<big_at(I), small_at(I), 2>(ct2<big_at(I)>(a), ct2<small_at(I)>(b));
  else if (I % 3 == 1) resize<small_at(I), big_at(I), 2>(ct2<small_at(I)>(a), ct2<big_at(I)>(b));
  else mod_raise<small_at(I), big_at(I), 2>(ct2<small_at(I)>(a), ct2<big_at(I)>(b));
}
#endif
template <size_t... I> void pair_fns(PairFn* t, std::index_sequence<I...>) { PairFn f[] = {pair_fn<(int)I>...}; for (int i = 0; i < NP; i++) t[i] = f[i]; }
template <int GROUP> struct Pairs : LibOp {       // several pairs of moduli per operation
  static const int M = 16;
  Words a[M], b[M]; int k[M]; ref::Poly x[M], y[M];
  static PairFn* table() { static PairFn t[NP]; static bool once = (pair_fns(t, std::make_index_sequence<NP>()), true); (void)once; return t; }
  int fr(int i) const { return SWEEP_SET == 2 || k[i] % 3 == 0 ? big_at(k[i]) : small_at(k[i]); }
  int to(int i) const { return SWEEP_SET == 2 || k[i] % 3 == 0 ? small_at(k[i]) : big_at(k[i]); }
  void prepare(Rng& r) override {
    table();
    for (int i = 0; i < M; i++) {
      k[i] = (int)r.below(NP); int f = fr(i); x[i] = gen_poly(r, 2, f, gen_style(r)); y[i] = gen_poly(r, 2, f, gen_style(r));
      a[i].size(words(f, 4)); b[i].size(words(to(i), 4)); a[i].put(x[i]); a[i].put(y[i], words(f, 2));
    }
  }
  void prefill(uint64_t g) override { for (int i = 0; i < M; i++) b[i].fill(g + i); }
  void run() override { for (int i = 0; i < M; i++) table()[k[i]](a[i].p, b[i].p); }
  uint64_t out() override { Digest d; for (int i = 0; i < M; i++) d.poly(b[i].get(0, b[i].n)); return d.h; }
  uint64_t in() override { Digest d; for (int i = 0; i < M; i++) d.poly(a[i].get(0, a[i].n)); return d.h; }
  std::string verify() override {
    for (int i = 0; i < M; i++) for (int h = 0; h < 2; h++) {
      ref::Poly o = b[i].half(h); const ref::Poly& w = h ? y[i] : x[i]; const char* nm = SWEEP_SET == 2 ? "RS" : k[i] % 3 == 2 ? "mod_raise" : "resize";
      if (!ref::reduced(o, to(i))) return strf("%s<%d,%d,2>: not reduced", nm, fr(i), to(i));
      if (SWEEP_SET != 2) { if (o != ref::lift(w, fr(i), to(i))) return strf("%s<%d,%d,2>: component %d is not the same signed value", nm, fr(i), to(i), h); }
      else { double e = ref::rs_err(w, fr(i), o, to(i)); ratio = std::max(ratio, e / 0.5); if (e > 0.5) return strf("RS<%d,%d,2>: component %d is off by %g units (nearest: at most 0.5)", fr(i), to(i), h, e); }
    }
    return "";
  }
};
#endif

struct Fns {
  int q;
  void (*enc)(uint64_t* pt, int* s, uint64_t* c); void (*dec)(uint64_t* c, int* s, uint64_t* pt); void (*swkgen)(int* f, int* t, uint64_t* k);
  void (*ks)(uint64_t* k, uint64_t* c); void (*rot)(uint64_t* c, int off, uint64_t* k, uint64_t* o); void (*conj)(uint64_t* c, uint64_t* k, uint64_t* o);
  void (*mul)(uint64_t* a, uint64_t* b, uint64_t* k, uint64_t* o); void (*arith)(int what, uint64_t* a, uint64_t* b, uint64_t k);
  void (*ring)(uint64_t* a, uint64_t* b, uint64_t* o); void (*key)(int* s, uint64_t* a, uint64_t* o);
};
template <int Q> Fns fns() {
  Fns f; memset((void*)&f, 0, sizeof f); f.q = Q;
#if SWEEP_SET == 1
  f.enc = [](uint64_t* pt, int* s, uint64_t* c) { HEAAN<Q, N>::enc(rq<Q>(pt), s, ct<Q>(c)); };
  f.dec = [](uint64_t* c, int* s, uint64_t* pt) { HEAAN<Q, N>::dec(ct<Q>(c), s, rq<Q>(pt)); };
  f.swkgen = [](int* a, int* b, uint64_t* k) { HEAAN<Q, N>::swkgen(a, b, ct<2 * Q>(k)); };
#elif SWEEP_SET == 2
  f.ks = [](uint64_t* k, uint64_t* c) { HEAAN<Q, N>::ks(ct<2 * Q>(k), ct<Q>(c)); };
  f.rot = [](uint64_t* c, int off, uint64_t* k, uint64_t* o) { rot_ct<Q, N>(ct<Q>(c), off, ct<2 * Q>(k), ct<Q>(o)); };
  f.conj = [](uint64_t* c, uint64_t* k, uint64_t* o) { conj<Q, N>(ct<Q>(c), ct<2 * Q>(k), ct<Q>(o)); };
#elif SWEEP_SET == 3
  f.mul = [](uint64_t* a, uint64_t* b, uint64_t* k, uint64_t* o) { Mul<Q, N>(ct<Q>(a), ct<Q>(b), ct<2 * Q>(k), ct<Q>(o)); };
  f.arith = [](int what, uint64_t* a, uint64_t* b, uint64_t k) {
    switch (what) {
      case 0: ct<Q>(a) += ct<Q>(b); break;
      case 1: ct<Q>(a) -= ct<Q>(b); break;
      case 2: ct<Q>(a) *= k; break;
      case 3: ct<Q>(a) *= rq<Q>(b); break;
      case 4: rq<Q>(a) *= k; break;
      case 5: for (int i = 0; i < N; i++) rq<Q>(a)[i].negate(); break;
      case 6: for (int i = 0; i < N; i++) rq<Q>(a)[i] *= rq<Q>(b)[i]; break;
    }
  };
#elif SWEEP_SET == 4
  f.ring = [](uint64_t* a, uint64_t* b, uint64_t* o) { conv<Q, N>(rq<Q>(a), rq<Q>(b), rq<Q>(o)); };
  f.key = [](int* s, uint64_t* a, uint64_t* o) { conv<Q, N>(s, rq<Q>(a), rq<Q>(o)); };
#endif
  return f;
}
template <size_t... I> void fill_fns(Fns* t, std::index_sequence<I...>) { Fns f[] = {fns<size_at((int)I)>()...}; for (int i = 0; i < NQ; i++) t[i] = f[i]; }
static const Fns& fns_at(int i) { static Fns t[NQ]; static bool once = (fill_fns(t, std::make_index_sequence<NQ>()), true); (void)once; return t[i]; }
struct Sized : LibOp {
  const Fns* f; int q; size_t w;           // words of one ring element
  void pick_size(Rng& r) { f = &fns_at((int)r.below(NQ)); q = f->q; w = words(q, N); }
  // a ciphertext of m under s; returns its largest possible error
  static double encrypt(Rng& r, const ref::Poly& m, const ref::Key& s, int lq, Words& c, int estyle = -1) {
    ref::Poly a = gen_poly(r, N, lq, gen_style(r)); if (estyle < 0) estyle = gen_estyle(r);
    ref::Poly b = ref::sub(ref::add(m, gen_err(r, N, lq, estyle), lq), ref::mulkey(s, a, lq), lq);
    c.size(2 * words(lq, N)); c.put(b); c.put(a, words(lq, N)); return estyle == 3 ? 0 : 8;
  }
  ref::Poly decrypt(const Words& c, const ref::Key& s, int lq) { return ref::dec(c.half(0), c.half(1), s, lq); }
  static bool ok(const Words& c, int lq) { return ref::reduced(c.half(0), lq) && ref::reduced(c.half(1), lq); }
};
#if SWEEP_SET == 1
template <int V> struct EncAt : Sized {
  Words pt, c, p2, k; Box<int[N]> s, from; ref::Poly m; ref::Key key, fr;
  void prepare(Rng& r) override {
    pick_size(r); key = gen_key(r, N, gen_h(r, N)); fr = gen_key(r, N, gen_h(r, N)); if (r.chance(1, 2)) for (auto& x : fr) x = (int)r.below(401) - 200;
    m = gen_poly(r, N, q, gen_style(r)); pt.size(w); c.size(2 * w); p2.size(w); k.size(2 * words(2 * q, N)); pt.put(m); from_key(key, *s); from_key(fr, *from);
  }
  void prefill(uint64_t g) override { c.fill(g); p2.fill(g + 1); k.fill(g + 2); }
  void run() override { f->enc(pt.p, *s, c.p); f->dec(c.p, *s, p2.p); f->swkgen(*from, *s, k.p); }
  uint64_t out() override { Digest d; d.poly(c.get(0, c.n)); d.poly(p2.get(0, w)); d.poly(k.get(0, k.n)); return d.h; }
  uint64_t in() override { Digest d; d.poly(pt.get(0, w)); d.ints(*s, N); d.ints(*from, N); return d.h; }
  std::string verify() override {
    if (!ok(c, q) || !ref::reduced(p2.get(0, w), q) || !ok(k, 2 * q)) return strf("enc, dec or swkgen<%d,%d>: not reduced", q, N);
    ref::Poly d = decrypt(c, key, q); double e = ref::maxabs(ref::sub(d, m, q), q); ratio = e / 8;
    if (e > 8) return strf("enc<%d,%d>: decrypts to the plaintext with error %g > 8", q, N, e);
    if (d != p2.get(0, w)) return strf("dec<%d,%d> is not c0 + s c1", q, N);
    e = ref::maxabs(ref::sub(decrypt(k, key, 2 * q), ref::shl(key_poly(fr, q), q, 2 * q), 2 * q), 2 * q); ratio = std::max(ratio, e / 8);
    return e <= 8 ? "" : strf("swkgen<%d,%d>: decrypts to 2^%d s_from with error %g > 8", q, N, q, e);
  }
};
OPREG("EncAt<0>", "enc", 2, OP_RAND | OP_OMP, EncAt<0>) OPREG("EncAt<1>", "enc", 2, OP_RAND | OP_OMP, EncAt<1>) OPREG("EncAt<2>", "enc", 2, OP_RAND | OP_OMP, EncAt<2>) OPREG("EncAt<3>", "enc", 2, OP_RAND | OP_OMP, EncAt<3>)
#elif SWEEP_SET == 2
template <int MODE> struct KsAt : Sized {
  Words c, o, k; ref::Key fr, to; ref::Poly want; int off = 0; double emax = 8;
  void prepare(Rng& r) override {
    pick_size(r); to = gen_key(r, N, gen_h(r, N)); long e = 1;
    if (MODE == 0) fr = r.chance(1, 2) ? ref::mulkey(to, to) : gen_key(r, N, gen_h(r, N));
    else { if (MODE == 1) { off = gen_off(r, N); e = ref::pow5(off, N); } else e = 2 * N - 1; fr = ref::automorph(to, e); }
    ref::Poly b = gen_poly(r, N, q, gen_style(r)), a = gen_poly(r, N, q, gen_style(r)); c.size(2 * w); o.size(2 * w); c.put(b); c.put(a, w);
    want = MODE == 0 ? ref::dec(b, a, fr, q) : ref::automorph(ref::dec(b, a, to, q), q, e);
    emax = encrypt(r, ref::shl(key_poly(fr, q), q, 2 * q), to, 2 * q, k, r.chance(1, 3) ? 3 : -1);
  }
  void prefill(uint64_t g) override { if (MODE == 0) memcpy(o.p, c.p, 8 * o.n); else o.fill(g); }
  void run() override { if (MODE == 0) f->ks(k.p, o.p); else if (MODE == 1) f->rot(c.p, off, k.p, o.p); else f->conj(c.p, k.p, o.p); }
  uint64_t out() override { Digest d; d.poly(o.get(0, o.n)); return d.h; }
  uint64_t in() override { Digest d; d.poly(c.get(0, c.n)); d.poly(k.get(0, k.n)); return d.h; }
  std::string verify() override {
    static const char* nm[] = {"ks", "rot_ct", "conj"};
    if (!ok(o, q)) return strf("%s<%d,%d>: not reduced", nm[MODE], q, N);
    double e = ref::maxabs(ref::sub(decrypt(o, to, q), want, q), q), b = ks_bound(N, to, emax); ratio = e / b;
    return e <= b ? "" : strf("%s<%d,%d> (offset %d): error %g, allowed %g", nm[MODE], q, N, off, e, b);
  }
};
OPREG("KsAt<0>", "ks", 12, OP_ALLOC | OP_TABLE | OP_OMP, KsAt<0>) OPREG("KsAt<1>", "ks", 12, OP_ALLOC | OP_TABLE | OP_OMP, KsAt<1>) OPREG("KsAt<2>", "ks", 12, OP_ALLOC | OP_TABLE | OP_OMP, KsAt<2>)
OPREG("RsPairs<0>", "ks", 4, 0, Pairs<0>) OPREG("RsPairs<1>", "ks", 4, 0, Pairs<1>) OPREG("RsPairs<2>", "ks", 4, 0, Pairs<2>)
#elif SWEEP_SET == 3
template <int V> struct MulAt : Sized {
  Words a, b, o, k; ref::Key s; ref::Poly want; double emax = 8; bool square = false;
  void prepare(Rng& r) override {
    pick_size(r); s = gen_key(r, N, gen_h(r, N)); square = r.chance(1, 4);
    for (Words* x : {&a, &b}) { x->size(2 * w); x->put(gen_poly(r, N, q, gen_style(r))); x->put(gen_poly(r, N, q, gen_style(r)), w); } o.size(2 * w);
    want = ref::mul(decrypt(a, s, q), decrypt(square ? a : b, s, q), q); emax = encrypt(r, ref::shl(key_poly(ref::mulkey(s, s), q), q, 2 * q), s, 2 * q, k, r.chance(1, 3) ? 3 : -1);
  }
  void prefill(uint64_t g) override { o.fill(g); }
  void run() override { f->mul(a.p, square ? a.p : b.p, k.p, o.p); }
  uint64_t out() override { Digest d; d.poly(o.get(0, o.n)); return d.h; }
  uint64_t in() override { Digest d; d.poly(a.get(0, a.n)); d.poly(b.get(0, b.n)); d.poly(k.get(0, k.n)); return d.h; }
  std::string verify() override {
    if (!ok(o, q)) return strf("Mul<%d,%d>: not reduced", q, N);
    double e = ref::maxabs(ref::sub(decrypt(o, s, q), want, q), q), bd = ks_bound(N, s, emax); ratio = e / bd;
    return e <= bd ? "" : strf("Mul<%d,%d>: error %g, allowed %g", q, N, e, bd);
  }
};
template <int V> struct ArithAt : Sized {      // exact operations on the components
  static const int M = 7; Words a[M], b; uint64_t k = 1; ref::Poly x[M][2], y[2];
  void prepare(Rng& r) override {
    pick_size(r); b.size(2 * w); for (int h = 0; h < 2; h++) { y[h] = gen_poly(r, N, q, gen_style(r)); b.put(y[h], h * w); }
    for (int i = 0; i < M; i++) { a[i].size(2 * w); for (int h = 0; h < 2; h++) x[i][h] = gen_poly(r, N, q, gen_style(r)); }
    switch (r.below(4)) { case 0: k = r.next(); break; case 1: k = r.below(5); break; case 2: k = 1ull << r.below(64); break; default: k = (1ull << r.below(64)) - 1; }
  }
  void prefill(uint64_t) override { for (int i = 0; i < M; i++) for (int h = 0; h < 2; h++) a[i].put(x[i][h], h * w); }
  void run() override { for (int i = 0; i < M; i++) f->arith(i, a[i].p, b.p, k); }
  uint64_t out() override { Digest d; for (int i = 0; i < M; i++) d.poly(a[i].get(0, a[i].n)); return d.h; }
  uint64_t in() override { Digest d; d.poly(b.get(0, b.n)); return d.h + k; }
  std::string verify() override {
    static const char* nm[] = {"+=", "-=", "*= integer", "*= plaintext", "ring element *= integer", "negate", "*= modular integer"};
    for (int i = 0; i < M; i++) for (int h = 0; h < (i < 4 ? 2 : 1); h++) {
      ref::Poly e; const ref::Poly& v = x[i][h];
      switch (i) {
        case 0: e = ref::add(v, y[h], q); break;
        case 1: e = ref::sub(v, y[h], q); break;
        case 2: case 4: e = ref::muli(v, k, q); break;
        case 3: e = ref::mul(v, y[0], q); break;
        case 5: e = ref::neg(v, q); break;
        case 6: {
          const size_t L = (q + 63) / 64; e.resize(v.size());
          for (int j = 0; j < N; j++) { ref::Poly p(v.begin() + j * L, v.begin() + (j + 1) * L), t(y[0].begin() + j * L, y[0].begin() + (j + 1) * L), u = ref::mul(p, t, q); for (size_t l = 0; l < L; l++) e[j * L + l] = u[l]; }
          break;
        }
      }
      if (a[i].half(h) != e) return strf("%s<%d,%d>: component %d", nm[i], q, N, h);
    }
    return "";
  }
};
OPREG("MulAt<0>", "arith", 15, OP_ALLOC | OP_TABLE | OP_OMP, MulAt<0>) OPREG("MulAt<1>", "arith", 15, OP_ALLOC | OP_TABLE | OP_OMP, MulAt<1>)
OPREG("ArithAt<0>", "arith", 10, OP_ALLOC | OP_TABLE | OP_OMP, ArithAt<0>) OPREG("ArithAt<1>", "arith", 10, OP_ALLOC | OP_TABLE | OP_OMP, ArithAt<1>) OPREG("ArithAt<2>", "arith", 10, OP_ALLOC | OP_TABLE | OP_OMP, ArithAt<2>)
OPREG("ResizePairs<0>", "arith", 4, 0, Pairs<0>) OPREG("ResizePairs<1>", "arith", 4, 0, Pairs<1>) OPREG("ResizePairs<2>", "arith", 4, 0, Pairs<2>)
#elif SWEEP_SET == 4
template <int V> struct RingAt : Sized {
  Words a, b, o, o2; Box<int[N]> s; ref::Key k; ref::Poly x, y;
  void prepare(Rng& r) override {
    pick_size(r); k = gen_key(r, N, gen_h(r, N)); x = gen_poly(r, N, q, gen_style(r)); y = gen_poly(r, N, q, gen_style(r));
    for (Words* v : {&a, &b, &o, &o2}) v->size(w); a.put(x); b.put(y); from_key(k, *s);
  }
  void prefill(uint64_t g) override { o.fill(g); o2.fill(g + 1); }
  void run() override { f->ring(a.p, b.p, o.p); f->key(*s, a.p, o2.p); }
  uint64_t out() override { Digest d; d.poly(o.get(0, w)); d.poly(o2.get(0, w)); return d.h; }
  uint64_t in() override { Digest d; d.poly(a.get(0, w)); d.poly(b.get(0, w)); d.ints(*s, N); return d.h; }
  std::string verify() override {
    if (o.get(0, w) != ref::mul(x, y, q)) return strf("R_Q<%d,%d> product is wrong", q, N);
    return o2.get(0, w) == ref::mulkey(k, x, q) ? "" : strf("ternary x R_Q<%d,%d> product is wrong", q, N);
  }
};
OPREG("RingAt<0>", "ring", 10, OP_ALLOC | OP_TABLE | OP_OMP, RingAt<0>) OPREG("RingAt<1>", "ring", 10, OP_ALLOC | OP_TABLE | OP_OMP, RingAt<1>) OPREG("RingAt<2>", "ring", 10, OP_ALLOC | OP_TABLE | OP_OMP, RingAt<2>) OPREG("RingAt<3>", "ring", 10, OP_ALLOC | OP_TABLE | OP_OMP, RingAt<3>)
#elif SWEEP_SET == 5
OPREG("RaisePairs<0>", "boot", 4, 0, Pairs<0>) OPREG("RaisePairs<1>", "boot", 4, 0, Pairs<1>)
#endif
}
