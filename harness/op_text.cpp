// What the library prints: timers, messages, plaintexts, arrays (util/util.h, impl/message.h, impl/simple_plaintext.h, matrix/matrix.h).
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <streambuf>
#include <string>
int op_printf(const char* f, ...) __attribute__((format(printf, 1, 2)));
int op_fprintf(FILE* f, const char* s, ...) __attribute__((format(printf, 2, 3)));
int op_puts(const char* s);
int op_putchar(int c);
namespace std { using ::op_printf; using ::op_fprintf; using ::op_puts; using ::op_putchar; }
#define printf op_printf      // what the library prints with the C functions goes to the operation as well
#define fprintf op_fprintf
#define puts op_puts
#define putchar op_putchar
#include "msg.h"
#include "impl/message.h"
#include "impl/simple_plaintext.h"
#undef printf
#undef fprintf
#undef puts
#undef putchar
// std::cout's buffer: every thread's text goes to the operation it is running
struct Text { static const size_t CAP = 8192; size_t n; char s[CAP]; };
static thread_local Text* tl_text = nullptr;
struct Sink : std::streambuf {
  int overflow(int c) override { if (c != EOF && tl_text && tl_text->n < Text::CAP) tl_text->s[tl_text->n++] = (char)c; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* p, std::streamsize k) override { for (std::streamsize i = 0; i < k; i++) overflow((unsigned char)p[i]); return k; }
};
static Sink g_sink;
static int text_v(const char* f, va_list a) { char b[4096]; int n = vsnprintf(b, sizeof b, f, a); for (int i = 0; i < n && i < (int)sizeof b - 1; i++) g_sink.sputc(b[i]); return n; }
int op_printf(const char* f, ...) { va_list a; va_start(a, f); int n = text_v(f, a); va_end(a); return n; }
int op_fprintf(FILE* o, const char* f, ...) { va_list a; va_start(a, f); int n = o == stdout ? text_v(f, a) : vfprintf(o, f, a); va_end(a); return n; }
int op_puts(const char* s) { return op_printf("%s\n", s); }
int op_putchar(int c) { op_printf("%c", c); return c; }
struct Into { Into(Text& t) { if (std::cout.rdbuf() != &g_sink) std::cout.rdbuf(&g_sink); t.n = 0; tl_text = &t; } ~Into() { tl_text = nullptr; } };
static struct Install { Install() { std::cout.rdbuf(&g_sink); } } g_install;
// timers: K of them, overlapping
template <int K> struct Timers : LibOp {
  Box<Text> t; std::string name[K]; bool again = false;
  void prepare(Rng& r) override {
    for (int k = 0; k < K; k++) { name[k] = r.chance(1, 2) ? "t" : "a timer with a rather long name, longer than a small string"; name[k] += (char)('a' + k); if (k && r.chance(1, 4)) name[k] = name[0]; }
    again = r.chance(1, 4);
  }
  void prefill(uint64_t g) override { garbage(*t, g); t->n = 0; }
  void run() override { Into i(*t); start<0>(); }
  template <int k> void start() { if constexpr (k < K) { Timer x(name[k]); start<k + 1>(); x.stop(); if (again) x.stop(); } }
  std::vector<std::string> lines() { std::vector<std::string> v(1); for (size_t i = 0; i < t->n; i++) if (t->s[i] == '\n') v.push_back(""); else v.back() += t->s[i]; return v; }
  static std::string cut(std::string l) { size_t k = l.rfind(" : "); return k == std::string::npos ? l : l.substr(0, k); }   // without the time
  uint64_t out() override { Digest d; for (auto& l : lines()) for (char c : cut(l) + "\n") d.word((unsigned char)c); return d.h; }
  uint64_t in() override { return 0; }
  std::string verify() override {
    std::vector<std::string> want, got = lines();
    for (int k = 0; k < K; k++) want.push_back(name[k] + " start");
    for (int k = K - 1; k >= 0; k--) for (int a = 0; a <= again; a++) want.push_back(name[k]);
    if (got.size() != want.size() + 1 || !got.back().empty()) return "timers: other lines than expected";
    for (size_t i = 0; i < want.size(); i++) if (cut(got[i]) != want[i]) return strf("timers: line '%s', expected '%s'", got[i].c_str(), want[i].c_str());
    return "";
  }
};
template <int LOGN> struct Prints : LibOp {
  static const int N = 1 << LOGN, n = N / 2;
  Box<Text> t; Box<Message<LOGN>> z; Box<SimplePlaintext<LOGN>> p; Box<double[N]> d; Box<uint64_t[N]> u; Box<SparseDiagonal<n, 2>> A; std::string name; int order[3];   // what is printed, in which order
  void prepare(Rng& r) override {
    for (int& x : order) x = (int)r.below(5);
    put_slots(gen_slots(r, n), z->r, z->i); name = r.chance(1, 2) ? "m" : "a name longer than a small string is";
    for (int i = 0; i < N; i++) { p->data[i] = std::round(ldexp(2 * r.unit() - 1, (int)r.below(40))); (*d)[i] = r.chance(1, 5) ? 0 : ldexp(2 * r.unit() - 1, (int)r.below(60) - 30); (*u)[i] = r.next() >> r.below(64); }
    for (int s = 0; s < 2; s++) { A->off[s] = s; A->zero[s] = false; for (int i = 0; i < n; i++) A->vec[s][i] = 2 * r.unit() - 1; }
  }
  void prefill(uint64_t g) override { garbage(*t, g); t->n = 0; }
  void run() override { Into i(*t); for (int x : order) switch (x) {
    case 0: print<LOGN>(name, *z); break; case 1: print<LOGN>(name, *p); break; case 2: print_array<N>(*d); break; case 3: print_array<N>(*u); break; case 4: print_max<n, 2>(*A); break; } }
  uint64_t out() override { Digest x; for (size_t i = 0; i < t->n; i++) x.word((unsigned char)t->s[i]); return x.h; }
  uint64_t in() override { Digest x; x.reals(z->r, n); x.reals(z->i, n); x.reals(p->data, N); x.reals(*d, N); x.diag(*A, 2, n); for (int i = 0; i < N; i++) x.word((*u)[i]); return x.h; }
  std::string verify() override {
    std::string w; int m = N < 10 ? N : 10; double mx = 0;
    for (int s = 0; s < 2; s++) for (int i = 0; i < n; i++) mx = std::max(mx, std::abs(A->vec[s][i]));
    for (int x : order) {
      if (x == 0) { w += "Message " + name + "\n"; for (int i = 0; i < (n < 10 ? n : 10); i++) w += strf("(%g, %g) ", z->r[i], z->i[i]); }
      if (x == 1) { w += "SimplePlaintext " + name + "\n"; for (int i = 0; i < m; i++) w += strf("%g ", p->data[i]); }
      if (x == 2) for (int i = 0; i < m; i++) w += strf("%g ", (*d)[i]);
      if (x == 3) for (int i = 0; i < m; i++) w += strf("%llu ", (unsigned long long)(*u)[i]);
      if (x == 4) w += strf("Max %g", mx);
      w += "\n";
    }
    return std::string(t->s, t->n) == w ? "" : "printed text: other than expected";
  }
};
static std::string decimal(const ref::Poly& p, int k, int L) {
  std::string w; std::vector<uint64_t> q(p.begin() + (size_t)k * L, p.begin() + (size_t)(k + 1) * L); bool more = true;
  while (more) { unsigned __int128 rem = 0; more = false; for (int i = L - 1; i >= 0; i--) { rem = rem << 64 | q[i]; q[i] = (uint64_t)(rem / 10); rem %= 10; more = more || q[i]; } w.insert(w.begin(), (char)('0' + (int)rem)); }
  return w;
}
// ring elements and matrices printed
template <int Q, int N> struct ZPrint : LibOp {
  static const int L = (Q + 63) / 64;
  Box<Text> t; Box<R_Q<Q, N>> x; Box<SparseDiagonal<N, 2>> A; ref::Poly p; int order[2];
  void prepare(Rng& r) override {
    p = gen_poly(r, N, Q, gen_style(r)); from_ref(p, *x); for (int& o : order) o = (int)r.below(3);
    for (int s = 0; s < 2; s++) { A->off[s] = s ? 1 + (int)r.below(N - 1) : 0; A->zero[s] = false; for (int i = 0; i < N; i++) A->vec[s][i] = r.chance(1, 4) ? 0 : 2 * r.unit() - 1; }
  }
  void prefill(uint64_t g) override { garbage(*t, g); t->n = 0; }
  void run() override { Into i(*t); for (int o : order) if (o == 0) x->print_unsigned(); else if (o == 1) x->print_signed(); else A->print("A"); }
  uint64_t out() override { Digest d; for (size_t i = 0; i < t->n; i++) d.word((unsigned char)t->s[i]); return d.h; }
  uint64_t in() override { Digest d; d.rq(*x); d.diag(*A, 2, N); return d.h; }
  std::string verify() override {
    std::string w; ref::Poly n = ref::neg(p, Q);
    for (int o : order) {
      if (o < 2) {
        w += "["; for (int i = 0; i < N; i++) { bool m = o == 1 && p[(size_t)i * L + (Q - 1) / 64] >> ((Q - 1) % 64) & 1; w += (m ? "-" : "") + decimal(m ? n : p, i, L) + "\n" + (i < N - 1 ? "," : ""); }
        w += "]\n";
      } else {
        w += strf("A:zeromatrix(%d,%d)$\n", N, N);
        for (int s = 0; s < 2; s++) for (int i = 0; i < N; i++) if (A->vec[s][i] != 0) w += strf("A[%d][%d]:%f$\n", i + 1, (i + A->off[s]) % N + 1, A->vec[s][i]);
      }
    }
    if (w.size() > Text::CAP) w.resize(Text::CAP);
    return std::string(t->s, t->n) == w ? "" : "printed ring elements or matrices: other than expected";
  }
};
// one modular integer: to and from decimal text, products, conversion to a floating-point number
template <int Q> struct ZText : LibOp {
  static const int L = (Q + 63) / 64;
  typedef R_Q<Q, 1> Z; Box<Z> x, y, back, prod, scaled; Box<char[520]> str; Box<double[1]> d; ref::Poly a, b; uint64_t k = 0;
  void prepare(Rng& r) override {
    a = gen_poly(r, 1, Q, gen_style(r)); b = gen_poly(r, 1, Q, gen_style(r)); k = r.chance(1, 4) ? ~0ull >> r.below(64) : r.next() >> r.below(64);
    if (r.chance(1, 3)) { uint64_t v = r.next() >> (1 + r.below(63)); a.assign(L, 0); a[0] = v; if (Q < 64) a[0] &= (1ull << (Q - 1)) - 1; if (r.chance(1, 2)) a = ref::neg(a, Q); }   // fits in one word
    from_ref(a, *x); from_ref(b, *y);
  }
  void prefill(uint64_t g) override { for (auto* z : {&back, &prod, &scaled}) garbage(**z, g++); garbage(*str, g); garbage(*d, g + 1); }
  void run() override { (*x)[0].to_str(*str); (*back)[0].fr_str(*str); (*d)[0] = (double)(*x)[0]; *prod = *x; (*prod)[0] *= (*y)[0]; *scaled = *y; *scaled *= k; }
  uint64_t out() override { Digest g; for (int i = 0; i < 520 && (*str)[i]; i++) g.word((unsigned char)(*str)[i]); g.reals(*d, 1); g.rq(*back); g.rq(*prod); g.rq(*scaled); return g.h; }
  uint64_t in() override { Digest g; g.rq(*x); g.rq(*y); return g.h; }
  std::string verify() override {
    std::string w = decimal(a, 0, L);
    (*str)[519] = 0;
    if (w != *str) return strf("to_str<%d>: '%s', expected '%s'", Q, *str, w.c_str());
    if (to_ref(*back) != a) return strf("fr_str<%d> of '%s' is not the value it was printed from", Q, w.c_str());
    if (to_ref(*prod) != ref::mul(a, b, Q)) return strf("product of two integers modulo 2^%d is wrong", Q);
    if (to_ref(*scaled) != ref::muli(b, k, Q)) return strf("product with a word modulo 2^%d is wrong", Q);
    long double v = ref::coeffl(a, 0, Q); if (fabsl(v) < 18446744073709551616.0L && (*d)[0] != (double)v) return strf("conversion to double modulo 2^%d: %g, expected %g", Q, (*d)[0], (double)v);
    return "";
  }
};
OPREG("Timers<1>", "text", 1, OP_ALLOC | OP_COUT, Timers<1>) OPREG("Timers<3>", "text", 2, OP_ALLOC | OP_COUT, Timers<3>)
OPREG("Prints<2>", "text", 1, OP_COUT | OP_ALLOC, Prints<2>) OPREG("Prints<5>", "text", 2, OP_COUT | OP_ALLOC, Prints<5>)
#define ZT(Q) OPREG("ZText<" #Q ">", "text", 1, 0, ZText<Q>)
ZT(61) ZT(128) ZT(200) ZT(1300)
OPREG("ZPrint<61,4>", "text", 1, OP_COUT, ZPrint<61, 4>) OPREG("ZPrint<200,8>", "text", 1, OP_COUT, ZPrint<200, 8>)
