// The three polynomial classes behind one interface, read and written coefficient by coefficient; Rabin irreducibility test in the oracle
#pragma once
#define EXT_F2N
#include "ext_t.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"
using namespace H;
using namespace spffl::factorization;
using spffl::polynomials::f2_poly_t; using spffl::polynomials::f2n_poly_t; using spffl::polynomials::fp_poly_t; using spffl::polynomials::f2_polymod_t;
[[maybe_unused]] static X one_(const K &k) { return xone(k); }
struct A2 { typedef f2_poly_t P; static const char *n() { return "f2"; }
  static P mk(const X &a, const K &) { P r; for (size_t i = 0; i < a.size(); i++) if (!a[i].empty()) r.set_bit((int)i); return r; }
  static X rd(const P &x, const K &) { X a(x.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) if (x.bit_at((int)i)) a[i] = Q{1}; return xtr(a); }
  static tfacinfo<P> fac(const P &f) { return f2_poly_factor(f); } static bool irr(const P &f) { return f2_poly_is_irreducible(f); } static int tot(const P &f) { return f2_poly_totient(f); }
  static P find(const K &, int d) { return f2_poly_find_irreducible(d); } static P ran(const K &, int d) { return f2_poly_random_irreducible(d); } };
struct AP { typedef fp_poly_t P; static const char *n() { return "fp"; }
  static P mk(const X &a, const K &k) { P r(intmod_t(xc(a, 0).empty() ? 0 : (int)a[0][0], (int)k.p)); for (size_t i = 1; i < a.size(); i++) if (!a[i].empty()) r.set_coeff((int)i, intmod_t((int)a[i][0], (int)k.p)); return r; }
  static X rd(const P &x, const K &k) { X a(x.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) { intmod_t c = x.get_coeff((int)i); if (c.get_modulus() != k.p) FAIL("a coefficient has modulus %d, expected %d", c.get_modulus(), (int)k.p); if (c.get_residue()) a[i] = Q{c.get_residue()}; } return xtr(a); }
  static tfacinfo<P> fac(const P &f) { return fp_poly_factor(f); } static bool irr(const P &f) { return fp_poly_is_irreducible(f); } static int tot(const P &f) { return fp_poly_totient(f); }
  static P find(const K &k, int d) { return fp_poly_find_irr((int)k.p, d); } static P ran(const K &k, int d) { return fp_poly_random_irr((int)k.p, d); } };
struct AN { typedef f2n_poly_t P; static const char *n() { return "f2n"; }
  static P mk(const X &a, const K &k) { return mkx<T2N>(a, k); }
  static X rd(const P &x, const K &k) { X a(x.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) a[i] = rdc<T2N>(x.get_coeff((int)i), k, "factor", __LINE__); return xtr(a); }
  static tfacinfo<P> fac(const P &f) { return f2n_poly_factor(f); } static bool irr(const P &f) { return f2n_poly_is_irreducible(f); } static int tot(const P &f) { return f2n_poly_totient(f); }
  static P find(const K &k, int d) { return f2n_poly_find_irr(T2N::base(k.m, k), d); } static P ran(const K &k, int d) { return f2n_poly_random_irr(T2N::base(k.m, k), d); } };
[[maybe_unused]] static double fieldsize(const K &k) { double q = 1; int e = k.simple() ? 1 : dg(k.m); while (e-- > 0) q *= (double)k.p; return q; }
// Rabin: f of degree n is irreducible iff x^(q^n) = x mod f and gcd(x^(q^(n/r)) - x, f) = 1 for every prime r | n
[[maybe_unused]] static bool xirr(const X &f, const K &k) {
  int n = xdg(f); if (n < 1) return false; if (n == 1) return true;
  X x{Q(), kint(1, k)}; X xq = xmod(x, f, k); int e = k.simple() ? 1 : dg(k.m);
  for (int i = 1; i <= n; i++) {
    for (int j = 0; j < e; j++) xq = xpowmod(xq, k.p, f, k);
    X d = xsub(xq, x, k);
    if (i < n) { if (n % i == 0) { bool pr = true; int r = n / i; for (int t = 2; t * t <= r; t++) if (r % t == 0) pr = false; if (pr && xdg(xgcd(f, d, k)) != 0) return false; } }
    else if (!xmod(d, f, k).empty()) return false;
  }
  return true;
}
[[maybe_unused]] static K fpk(ll_ p) { K k; k.p = p; return k; }
template <class A> static X xnum(unsigned long long v, const K &k) { unsigned long long q = (unsigned long long)fieldsize(k); X b; while (v) { b.push_back(knum(v % q, k)); v /= q; } return xtr(b); }
[[maybe_unused]] static const K &nk() { const auto &f = fields(0); for (;;) { const K &k = f[rnd() % f.size()]; if (dg(k.m) <= 5 || (dg(k.m) <= 8 && rnd() % 6 == 0)) return k; } }
[[maybe_unused]] static X rx(int lo, int hi, const K &k) { X m; do m = xr(hi, k); while (xdg(m) < lo); return m; }
