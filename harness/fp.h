#pragma once
#include "h.h"
#include "poly.h"
#include "spffl/polynomials/fp_poly_t.h"
using spffl::polynomials::fp_poly_t;
using spffl::intmath::intmod_t;
// built coefficient by coefficient, in increasing order
static inline fp_poly_t mkf(const Q &a, int p) { fp_poly_t r(intmod_t((int)cf(a, 0), p)); for (size_t i = 1; i < a.size(); i++) if (a[i]) r.set_coeff((int)i, intmod_t((int)a[i], p)); return r; }
static inline void samef(const fp_poly_t &x, const Q &a, int p, const char *w, int line) {
  int d = x.find_degree();
  if (d != dg0(a)) H::FAIL("%s: degree %d, expected %d (%s) (line %d)", w, d, dg0(a), qs(a).c_str(), line);
  if (x.get_characteristic() != p) H::FAIL("%s: characteristic %d (line %d)", w, x.get_characteristic(), line);
  for (int i = 0; i <= dg0(a) + 3; i++) { intmod_t c = x.get_coeff(i); if (c.get_modulus() != p || c.get_residue() != cf(a, i)) H::FAIL("%s: coefficient %d is %d mod %d, expected %lld mod %d (line %d)", w, i, c.get_residue(), c.get_modulus(), (long long)cf(a, i), p, line); }
  if ((x == 0) != a.empty() || (x != 0) == a.empty() || (x == 1) != (a == Q{1}) || (x != 1) == (a == Q{1})) H::FAIL("%s: comparison with an integer (line %d)", w, line);
  fp_poly_t e = mkf(a, p);
  if (!(x == e) || x != e || !(e == x) || x < e || x > e || !(x <= e) || !(x >= e)) H::FAIL("%s: does not compare equal to the same polynomial built coefficient by coefficient (line %d)", w, line);
  fp_poly_t t = x - e; if (t != 0 || t.find_degree() != 0) H::FAIL("%s: difference with itself is not zero (line %d)", w, line);
}
#define SAMEF(x, a) samef(x, a, p, #x, __LINE__)
static const int PR[] = {2, 3, 5, 7, 11, 13, 101, 257, 46337, 46349, 65537, 1000003, 1073741827, 2147483629, 2147483647};
static const int MO[] = {4, 6, 8, 9, 10, 12, 15, 65536, 1000000, 2147483646};
static inline int rp() { return H::rnd() % 3 ? PR[H::rnd() % 6] : PR[H::rnd() % 15]; }
static inline int rm_() { return H::rnd() % 4 ? rp() : MO[H::rnd() % 10]; }
static inline Q rf(int maxdeg, int p) { int d = (int)H::rin(-1, maxdeg); Q a(d + 1); int mode = H::rnd() % 4; for (auto &x : a) x = mode == 0 && H::rnd() % 4 ? 0 : mode == 1 && H::rnd() % 2 ? p - 1 : mode == 2 ? (ll_)H::rin(0, std::min(p - 1, 2)) : (ll_)H::rin(0, p - 1); if (d >= 0 && !a[d]) a[d] = H::rnd() % 2 ? 1 : p - 1; return tr(a); }
