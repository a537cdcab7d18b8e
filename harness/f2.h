#pragma once
#include "h.h"
#include "poly.h"
#include "spffl/polynomials/f2_poly_t.h"
using spffl::polynomials::f2_poly_t;
using spffl::bits::bit_t;
// built by setting single coefficients, in increasing order
static inline f2_poly_t mkp(const Q &a) { f2_poly_t r; for (size_t i = 0; i < a.size(); i++) if (a[i]) r.set_bit((int)i); return r; }
static inline std::string bs(const Q &a) { std::string s; if (a.empty()) return "0"; for (size_t i = a.size(); i-- > 0;) s += char('0' + a[i]); return s; }
// the value and its canonical storage, seen through every reader
static inline void samep(const f2_poly_t &x, const Q &a, const char *w, int line) {
  int d = x.find_degree();
  if (d != dg0(a)) H::FAIL("%s: degree %d, expected %d (line %d)", w, d, dg0(a), line);
  for (int i = 0; i <= dg0(a) + 70; i++) if (x.bit_at(i) != cf(a, i)) H::FAIL("%s: coefficient %d is %d, expected %d (line %d)", w, i, x.bit_at(i), (int)cf(a, i), line);
  if ((x == 0) != a.empty() || (x == 1) != (a == Q{1}) || (x != 0) == a.empty() || (x != 1) == (a == Q{1}) || (x == -2) != a.empty()) H::FAIL("%s: comparison with an integer (line %d)", w, line);
  f2_poly_t e = mkp(a);
  if (!(x == e) || x != e || !(e == x) || x < e || x > e || !(x <= e) || !(x >= e)) H::FAIL("%s: does not compare equal to the same polynomial built bit by bit (line %d)", w, line);
  // storage: sums and products see no stray parts
  f2_poly_t one(1); f2_poly_t t = x * one; if (!(t == e)) H::FAIL("%s: multiplied by one differs (line %d)", w, line);
  if (!a.empty()) for (int k : {1, 3, 70}) { f2_poly_t q, r, q2, r2, big; big.set_bit(dg(a) + k); big.set_bit(0); big.quot_and_rem(x, q, r); big.quot_and_rem(e, q2, r2); if (q != q2 || r != r2) H::FAIL("%s: as a divisor it behaves unlike the same polynomial built bit by bit (line %d)", w, line); }
  t = x + e; if (t != 0 || t.find_degree() != 0) H::FAIL("%s: sum with itself is not zero (line %d)", w, line);
}
#define SAMEP(x, a) samep(x, a, #x, __LINE__)
static inline Q rq(int maxdeg) { // random, biased to word boundaries and sparse/dense patterns
  static const int D[] = {-1, 0, 1, 2, 3, 5, 7, 8, 15, 31, 32, 33, 47, 61, 62, 63, 64, 65, 66, 95, 96, 126, 127, 128, 129, 130, 190, 191, 192, 193, 254, 255, 256, 257, 320};
  int d; do d = H::rnd() % 3 ? D[H::rnd() % (sizeof D / sizeof *D)] : (int)H::rin(-1, maxdeg); while (d > maxdeg);
  Q a(d + 1); int mode = H::rnd() % 6;
  for (auto &x : a) x = mode == 0 ? 0 : mode == 1 ? 1 : mode == 2 ? H::rnd() % 20 == 0 : mode == 3 ? H::rnd() % 20 != 0 : H::rnd() & 1;
  if (mode == 4 && d >= 64) { int w = H::rnd() % (d / 64 + 1); for (int i = 64 * w; i < 64 * w + 64 && i <= d; i++) a[i] = 0; }
  if (d >= 0) a[d] = 1;
  return tr(a);
}
