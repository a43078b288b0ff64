// Diagonal matrices (matrix/matrix.h) and the dense matrices they denote.
#pragma once
#include "msg.h"
typedef std::vector<std::vector<double>> Dense;
template <int n, int S> Dense dense(const SparseDiagonal<n, S>& A, bool flags) {   // flags: what a linear transform uses, it leaves out flagged diagonals
  Dense d(n, std::vector<double>(n, 0));
  for (int s = 0; s < S; s++) if (!(flags && A.zero[s])) for (int i = 0; i < n; i++) d[i][(((i + A.off[s]) % n) + n) % n] += A.vec[s][i];
  return d;
}
inline double far(const Dense& a, const Dense& b) { double m = 0; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) { double e = std::fabs(a[i][j] - b[i][j]); if (!(e <= m)) m = e; } return m; }
inline Dense times(const Dense& a, const Dense& b) {
  size_t n = a.size(); Dense c(n, std::vector<double>(n, 0));
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) if (a[i][k] != 0) for (size_t j = 0; j < n; j++) c[i][j] += a[i][k] * b[k][j];
  return c;
}
inline Dense comb(const Dense& a, double x, const Dense& b, double y) { Dense c = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) c[i][j] = x * a[i][j] + y * b[i][j]; return c; }
template <int n, int S> void put_diags(Rng& r, SparseDiagonal<n, S>& A, const std::vector<int>& off) {
  for (int s = 0; s < S; s++) {
    std::vector<double> x(n, 0); bool z = r.chance(1, 4); if (!z) gen_diag(r, x.data(), n, 1);
    A.off[s] = off[s]; A.zero[s] = z && r.chance(1, 2); for (int i = 0; i < n; i++) A.vec[s][i] = x[i];
  }
}
inline std::vector<int> gen_offs(Rng& r, int n, int S) {
  std::vector<int> o; while ((int)o.size() < S) { int k = r.chance(1, 4) ? 0 : r.chance(1, 4) ? n - 1 : (int)r.below(n); bool dup = false; for (int x : o) dup |= x == k; if (!dup) o.push_back(k); }
  return o;
}
