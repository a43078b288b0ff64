// Histories of operations on diagonal matrices: a few objects, changed in place again and again, each state against
// the dense matrix it should denote.
#include "diag.h"
inline double mag(const Dense& a) { double m = 0; for (auto& r : a) for (double x : r) m = std::max(m, std::fabs(x)); return m; }
inline Dense transposed(const Dense& a) { Dense t = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) t[i][j] = a[j][i]; return t; }
template <int n, int S> struct DiagHist : LibOp {
  static const int R = 4, P = 2, MAXI = 24, E = 8;
  typedef SparseDiagonal<n, S> D; typedef SparseDiagonal<n, S * S> D2;
  enum { ADD, SUB, SCALE, NEG, TRANS, COPY, SET, BUILD, MUL, CMUL, PADD, PSUB, PSCALE, PNEG, PTRANS, PCOPY, KINDS };
  struct Ins { int op, a, b, c, d; double k; int off[S], ei[E], ej[E], ne; double ev[E]; };
  Box<D> init[R], reg[R], log[MAXI]; Box<D2> prod[P], plog[MAXI]; Ins ins[MAXI]; int m = 0; std::vector<Dense> want; std::vector<double> size;
  void prepare(Rng& r) override {
    int sets = 1 + (int)r.below(2); std::vector<int> o[2] = {gen_offs(r, n, S), gen_offs(r, n, S)};
    std::vector<int> off[R]; int org[P] = {-1, -2}; Dense x[R], y[P]; std::vector<int> zero(S, 0);
    for (int k = 0; k < R; k++) { off[k] = o[r.below(sets)]; put_diags<n, S>(r, *init[k], off[k]); x[k] = dense(*init[k], false); }
    for (int k = 0; k < P; k++) y[k] = Dense(n, std::vector<double>(n, 0));
    m = 1 + (int)r.below(MAXI); double top = 1; int products = 0; want.clear(); size.clear();
    for (int t = 0; t < m; t++) {
      Ins& q = ins[t];
      for (;;) {
        q = Ins(); q.op = (int)r.below(KINDS); q.a = (int)r.below(R); q.b = (int)r.below(R); q.c = (int)r.below(R); q.d = (int)r.below(R); q.k = r.chance(1, 8) ? 0 : r.chance(1, 8) ? -1 : r.chance(1, 8) ? 0.5 : 3 * r.unit() - 1.5;
        if (q.op >= MUL && q.op != MUL && q.op != CMUL) { q.a %= P; q.b %= P; }
        if ((q.op == ADD || q.op == SUB) && off[q.a] != off[q.b]) continue;
        if (q.op == CMUL && (off[q.a] != off[q.b] || off[q.c] != off[q.d])) continue;
        if (q.op >= PADD && org[q.a] < 0) continue;
        if ((q.op == PADD || q.op == PSUB) && org[q.a] != org[q.b]) continue;
        if (q.op == PCOPY && org[q.b] < 0) continue;
        if ((q.op == MUL || q.op == CMUL) && top > 1e6) continue;
        break;
      }
      int tgt = q.a; bool pr = q.op >= MUL;
      switch (q.op) {
        case ADD: x[q.a] = comb(x[q.a], 1, x[q.b], 1); break;
        case SUB: x[q.a] = comb(x[q.a], 1, x[q.b], -1); break;
        case SCALE: x[q.a] = comb(x[q.a], q.k, x[q.a], 0); break;
        case NEG: x[q.a] = comb(x[q.a], -1, x[q.a], 0); break;
        case TRANS: x[q.a] = transposed(x[q.a]); for (int& k : off[q.a]) if (k > 0) k = n - k; break;
        case COPY: x[q.a] = x[q.b]; off[q.a] = off[q.b]; break;
        case BUILD: x[q.a] = Dense(n, std::vector<double>(n, 0)); if (r.chance(1, 2)) off[q.a] = o[r.below(sets)];   // fall through
        case SET: {
          for (int s = 0; s < S; s++) q.off[s] = off[q.a][s];
          q.ne = 1 + (int)r.below(E); if (q.op == BUILD && r.chance(1, 4)) q.ne = 0;
          for (int k = 0; k < q.ne; k++) { q.ei[k] = (int)r.below(n); q.ej[k] = (q.ei[k] + off[q.a][r.below(S)]) % n; q.ev[k] = r.chance(1, 4) ? 0 : 2 * r.unit() - 1; x[q.a][q.ei[k]][q.ej[k]] = q.ev[k]; }
          break;
        }
        case MUL: q.d = (int)r.below(P); y[q.d] = times(x[q.a], x[q.b]); org[q.d] = products++; tgt = q.d; break;
        case CMUL: { Dense re = comb(times(x[q.a], x[q.c]), 1, times(x[q.b], x[q.d]), -1), im = comb(times(x[q.a], x[q.d]), 1, times(x[q.b], x[q.c]), 1); y[0] = re; y[1] = im; org[0] = org[1] = products++; tgt = (int)r.below(P); q.off[0] = tgt; break; }
        case PADD: y[q.a] = comb(y[q.a], 1, y[q.b], 1); break;
        case PSUB: y[q.a] = comb(y[q.a], 1, y[q.b], -1); break;
        case PSCALE: y[q.a] = comb(y[q.a], q.k, y[q.a], 0); break;
        case PNEG: y[q.a] = comb(y[q.a], -1, y[q.a], 0); break;
        case PTRANS: y[q.a] = transposed(y[q.a]); org[q.a] = products++; break;
        case PCOPY: y[q.a] = y[q.b]; org[q.a] = org[q.b]; break;
      }
      const Dense& w = pr ? y[tgt] : x[tgt]; want.push_back(w); top = std::max(top, mag(w)); for (auto& z : x) top = std::max(top, mag(z)); for (auto& z : y) top = std::max(top, mag(z)); size.push_back(top);
    }
  }
  void prefill(uint64_t g) override { for (auto& b : reg) garbage(*b, g++); for (auto& b : log) garbage(*b, g++); for (auto& b : prod) garbage(*b, g++); for (auto& b : plog) garbage(*b, g++); }
  void run() override {
    for (int k = 0; k < R; k++) *reg[k] = *init[k];
    for (int t = 0; t < m; t++) {
      const Ins& q = ins[t]; int tgt = q.a;
      switch (q.op) {
        case ADD: *reg[q.a] += *reg[q.b]; break;
        case SUB: *reg[q.a] -= *reg[q.b]; break;
        case SCALE: *reg[q.a] *= q.k; break;
        case NEG: reg[q.a]->negate(); break;
        case TRANS: reg[q.a]->transpose(); break;
        case COPY: *reg[q.a] = *reg[q.b]; break;
        case BUILD: reg[q.a]->setzero(); for (int s = 0; s < S; s++) reg[q.a]->off[s] = q.off[s];   // fall through
        case SET: for (int k = 0; k < q.ne; k++) reg[q.a]->set_element(q.ei[k], q.ej[k], q.ev[k]); break;
        case MUL: MatMul<n, S, S>(*reg[q.a], *reg[q.b], *prod[q.d]); tgt = q.d; break;
        case CMUL: MatMul<n, S, S>(*reg[q.a], *reg[q.b], *reg[q.c], *reg[q.d], *prod[0], *prod[1]); tgt = q.off[0]; break;
        case PADD: *prod[q.a] += *prod[q.b]; break;
        case PSUB: *prod[q.a] -= *prod[q.b]; break;
        case PSCALE: *prod[q.a] *= q.k; break;
        case PNEG: prod[q.a]->negate(); break;
        case PTRANS: prod[q.a]->transpose(); break;
        case PCOPY: *prod[q.a] = *prod[q.b]; break;
      }
      if (q.op >= MUL) memcpy((void*)&*plog[t], (void*)&*prod[tgt], sizeof(D2)); else memcpy((void*)&*log[t], (void*)&*reg[tgt], sizeof(D));
    }
  }
  uint64_t out() override { Digest d; for (int t = 0; t < m; t++) if (ins[t].op >= MUL) d.diag(*plog[t], S * S, n); else d.diag(*log[t], S, n); return d.h; }
  uint64_t in() override { Digest d; for (auto& b : init) d.diag(*b, S, n); return d.h; }
  std::string verify() override {
    static const char* nm[] = {"+=", "-=", "*=", "negate", "transpose", "=", "set_element", "setzero and set_element", "MatMul", "complex MatMul", "+= on a product", "-= on a product", "*= on a product", "negate on a product", "transpose on a product", "= on a product"};
    for (int t = 0; t < m; t++) {
      for (bool f : {false, true}) {
        const Dense g = ins[t].op >= MUL ? dense(*plog[t], f) : dense(*log[t], f); double e = far(g, want[t]), tol = n * 1e-15 * (t + 4) * size[t];
        ratio = std::max(ratio, e / tol);
        if (!(e <= tol)) return strf("diagonal matrices<%d,%d>, step %d, %s%s: off by %g", n, S, t, nm[ins[t].op], f ? ", without the diagonals flagged as zero" : "", e);
      }
      if (ins[t].op < MUL) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double e = std::fabs(log[t]->get_element(i, j) - want[t][i][j]); if (!(e <= n * 1e-15 * (t + 4) * size[t])) return strf("diagonal matrices<%d,%d>, step %d, after %s: element %d, %d off by %g", n, S, t, nm[ins[t].op], i, j, e); }
    }
    return "";
  }
};
#define DHF(n, S, C) OPREG("DiagHist<" #n "," #S ">", "diag", C, 0, DiagHist<n, S>)
#ifdef OPS_BIG
DHF(64, 3, 6) DHF(32, 5, 6)
#else
DHF(4, 3, 2) DHF(8, 3, 2) DHF(8, 1, 1) DHF(16, 3, 3) DHF(6, 2, 1) DHF(8, 5, 3)
#endif
