#define EXT_F2N
#include "ext_t.h"
using namespace H; typedef T2N T; using spffl::polynomials::f2n_poly_t; using spffl::polynomials::f2_polymod_t; using spffl::polynomials::f2_poly_t;
static void incr(const X &a, const K &k) { // the next polynomial in the order of the coefficient strings
  CASE("increment of %s over %s", xs(a).c_str(), ks(k).c_str()); X o = a; size_t i = 0; int n = dg(k.m);
  for (;; i++) { if (i == o.size()) { o.push_back(Q{1}); break; } Q c = o[i]; c.resize(n); size_t j = 0; while (j < c.size() && c[j]) c[j++] = 0; if (j < c.size()) { c[j] = 1; o[i] = tr(c); break; } o[i] = Q(); }
  f2n_poly_t x = mkx<T>(a, k); x.increment(); SAMEX(x, o);
}
static void root(const X &a, const K &k) {
  CASE("square root of the square of %s over %s", xs(a).c_str(), ks(k).c_str()); f2n_poly_t x = mkx<T>(xmul(a, a, k), k), r; bool g = false; NOTHROW(g = x.square_root(r)); CHECK(g); SAMEX(r, a);
  X b = xmul(a, a, k); size_t p = 2 * (rnd() % 4) + 1; if (b.size() <= p) b.resize(p + 1); b[p] = Q{1}; f2n_poly_t y = mkx<T>(b, k); r = x; NOTHROW(g = y.square_root(r)); CHECK(!g);
}
static void ints(int c2, int c1, int c0, const K &k) { CASE("integers %d %d %d over %s", c2, c1, c0, ks(k).c_str()); f2_poly_t m = T::base(k.m, k); SAMEX(f2n_poly_t(c0, m), xtr(X{kint(c0, k)})); SAMEX(f2n_poly_t(c1, c0, m), xtr(X{kint(c0, k), kint(c1, k)})); SAMEX(f2n_poly_t(c2, c1, c0, m), xtr(X{kint(c0, k), kint(c1, k), kint(c2, k)})); }
static void remod(const X &a, const K &k, const K &k2) { // coefficients reduced modulo another polynomial
  CASE("change of modulus of %s over %s to %s", xs(a).c_str(), ks(k).c_str(), ks(k2).c_str()); f2n_poly_t x = mkx<T>(a, k); NOTHROW(x.change_modulus(T::base(k2.m, k2)));
  X o = a; for (auto &c : o) c = qmod(c, k2.m, 2); samex<T>(x, xtr(o), k2, "change_modulus", __LINE__);
}
int main(int c, char **v) {
  return ext_main<T>(0, c, v, [] { for (auto &k : small_fields(0)) { for (auto &a : allx(2, k, 64)) { incr(a, k); root(a, k); } for (auto &k2 : small_fields(0)) for (auto &a : allx(2, k, 12)) remod(a, k, k2); for (int i = 0; i < 8; i++) ints(i >> 2, (i >> 1) & 1, i & 1, k); } },
    [] { const K &k = rk(0); X a = xr(6, k); if (rnd() % 2) for (auto &x : a) if (rnd() % 2) x = tr(Q(dg(k.m), 1)); incr(a, k); root(xr(6, k), k); remod(xr(6, k), k, rk(0)); ints((int)rin(-9, 9), (int)rin(-9, 9), (int)rin(-9, 9), k); });
}
