// Reference model: executable specification of the arithmetic, written independently of
// the library (schoolbook products, no CRT, no NTT). Compiled without instrumentation.
// An element of Z_{2^logq} is ceil(logq/64) little-endian words, reduced; a ring element
// is N of them in a row.
#pragma once
#include <complex>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<uint64_t> Poly;     // N * limbs(logq) words
typedef std::vector<int> Key;           // N small integers
typedef std::complex<long double> Cx;
typedef std::vector<Cx> Slots;          // N/2 values

inline int limbs(int logq) { return (logq + 63) / 64; }
bool reduced(const Poly& a, int logq);
Poly add(const Poly& a, const Poly& b, int logq);
Poly sub(const Poly& a, const Poly& b, int logq);
Poly neg(const Poly& a, int logq);
Poly muli(const Poly& a, uint64_t k, int logq);
Poly mul(const Poly& a, const Poly& b, int logq);            // negacyclic product
void mul_coeff(const Poly& a, const Poly& b, int i, int logq, uint64_t* out);   // one coefficient of the product
Poly mulkey(const Key& s, const Poly& a, int logq);          // negacyclic product with small integers
Key mulkey(const Key& a, const Key& b);
Poly lift(const Poly& a, int fr, int to);                    // signed representative, other modulus
Poly shl(const Poly& a, int fr, int to);                     // times 2^(to-fr), from mod 2^fr to mod 2^to
Poly automorph(const Poly& a, int logq, long e);             // X -> X^e, e odd (mod 2N)
Key automorph(const Key& a, long e);
long pow5(long r, int N);                                    // 5^r mod 2N
Poly dec(const Poly& c0, const Poly& c1, const Key& s, int logq);
// largest |signed representative|, as a double (inf-safe for large moduli)
double maxabs(const Poly& a, int logq);
double coeff(const Poly& a, int i, int logq);                // signed representative as a double
long double coeffl(const Poly& a, int i, int logq);
// round-to-nearest: worst |2^(fr-to) out - in| as a multiple of 2^(fr-to)
double rs_err(const Poly& in, int fr, const Poly& out, int to);
uint64_t hash(const Poly& a);
uint64_t hash(const double* a, size_t n);
// canonical embedding: slot i of a real polynomial m is m(zeta^(5^i)), zeta = exp(i pi / N)
Slots embed(const std::vector<long double>& m);
std::vector<long double> unembed(const Slots& z);
Slots slots(const Poly& a, int logq, long double scale);
double dist(const Slots& a, const Slots& b);
Poly poly_of(const std::vector<long double>& m, int logq);   // nearest integers
std::string hex(const Poly& a, int i, int logq);
}  // namespace ref
