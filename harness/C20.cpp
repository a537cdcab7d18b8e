// Factorization of polynomials over F2, Fp, F(2^n): product, irreducibility of the factors (Rabin's test in the oracle), exactness of the irreducibility tests.
#include "adapt.h"
template <class A> static void one(const X &a, const K &k) {
  CASE("%s: factor %s over %s", A::n(), xs(a).c_str(), ks(k).c_str());
  if (a.empty()) return;
  typename A::P f = A::mk(a, k), u0 = f; tfacinfo<typename A::P> fi;
  NOTHROW(fi = A::fac(f));
  X prod = one_(k); bool hu = fi.get_unit(u0); if (hu) { X u = A::rd(u0, k); if (xdg(u) != 0) FAIL("the unit is %s", xs(u).c_str()); prod = u; }
  int nd = fi.get_num_distinct(), tot = 0; double q = fieldsize(k), t = 1; std::vector<X> fs; bool small = true;
  for (int i = 0; i < nd; i++) {
    X g = A::rd(fi.get_ith_factor(i), k); int m = fi.get_ith_count(i);
    if (m < 1) FAIL("factor %s has multiplicity %d", xs(g).c_str(), m);
    if (!xirr(g, k)) FAIL("factor %s is not irreducible", xs(g).c_str());
    for (auto &o : fs) if (o == g) FAIL("factor %s is listed twice", xs(g).c_str());
    fs.push_back(g); tot += m; if (m > xdg(a)) FAIL("factor %s has multiplicity %d in degree %d", xs(g).c_str(), m, xdg(a));
    prod = xmul(prod, xpow(g, m, k), k); double s = 1; for (int j = 0; j < xdg(g); j++) s *= q; t *= s - 1; for (int j = 1; j < m; j++) t *= s; if (t > 2e9) small = false;
  }
  if (prod != a) FAIL("the factors multiply to %s", xs(prod).c_str());
  CHECK(fi.get_num_factors() == tot);
  if (A::rd(f, k) != a) FAIL("the input was changed");
  bool ir = false; NOTHROW(ir = A::irr(f)); if (ir != xirr(a, k)) FAIL("irreducibility test says %d", (int)ir);
  if (ir && (tot != 1 || nd != 1)) FAIL("irreducible, with %d factors", tot);
  if (small && q < 1e5) { int g = 0; NOTHROW(g = A::tot(f)); if (xdg(a) > 0 && g != (int)t) FAIL("totient %d, expected %.0f", g, t); }
}
template <class A> static void irrtest(const X &a, const K &k) { CASE("%s: is %s irreducible over %s", A::n(), xs(a).c_str(), ks(k).c_str()); typename A::P f = A::mk(a, k); bool ir = false; NOTHROW(ir = A::irr(f)); if (ir != xirr(a, k)) FAIL("answered %d", (int)ir); if (A::rd(f, k) != a) FAIL("the input was changed"); }
template <class A> static void finds(int d, const K &k) {
  CASE("%s: irreducible of degree %d over %s", A::n(), d, ks(k).c_str());
  if (d < 1) { CHECK(throws([&] { A::find(k, d); })); if (d == 0) CHECK(throws([&] { A::ran(k, d); })); return; }
  typename A::P f = A::mk(one_(k), k); NOTHROW(f = A::find(k, d)); X a = A::rd(f, k); if (xdg(a) != d || !xirr(a, k) || a[d] != kint(1, k)) FAIL("found %s", xs(a).c_str());
  if (d > 1 && fieldsize(k) < 300) { unsigned long long q = (unsigned long long)fieldsize(k); for (unsigned long long v = 1;; v++) { X b; unsigned long long t = v; while (t) { b.push_back(knum(t % q, k)); t /= q; } b.resize(d + 1); b[d] = kint(1, k); if (xcmp(b, a) >= 0) break; if (xirr(b, k)) FAIL("found %s, but %s is lower", xs(a).c_str(), xs(b).c_str()); if (v > 3000) break; } }
  NOTHROW(f = A::ran(k, d)); a = A::rd(f, k); if (xdg(a) != d || !xirr(a, k)) FAIL("random irreducible %s", xs(a).c_str());
}
static void roots(const X &a, const K &k) {
  CASE("f2n: roots of %s over %s", xs(a).c_str(), ks(k).c_str()); if (xdg(a) < 1) return;
  f2n_poly_t f = AN::mk(a, k); tvector<f2_polymod_t> r; bool g = false; NOTHROW(g = f2n_poly_roots(f, r));
  std::vector<Q> want; for (unsigned long long v = 0; v < (1ull << dg(k.m)); v++) { Q e = knum(v, k); if (xev(a, e, k).empty()) want.push_back(e); }
  if (g != !want.empty()) FAIL("reported roots: %d, there are %zu", (int)g, want.size()); if (!g) return;
  if (r.get_num_elements() != (int)want.size()) FAIL("%d roots, expected %zu", r.get_num_elements(), want.size());
  std::vector<Q> got; for (int i = 0; i < r.get_num_elements(); i++) { Q e = rdc<T2N>(r[i], k, "root", __LINE__); if (!xev(a, e, k).empty()) FAIL("%s is not a root", qs(e).c_str()); for (auto &o : got) if (o == e) FAIL("root %s repeated", qs(e).c_str()); got.push_back(e); }
}
static X rprod(const K &k, int maxdeg) { // products with repeated factors, p-th powers and a non-trivial leader
  X a = one_(k); int n = (int)rin(1, 5);
  while (n-- > 0) { X g = rx(1, rnd() % 3 ? 2 : 5, k); int e = rnd() % 2 ? 1 : rnd() % 3 ? (int)rin(1, 4) : (int)(k.p * rin(1, 2)); if (xdg(a) + xdg(g) * e <= maxdeg) a = xmul(a, xpow(g, e, k), k); }
  if (rnd() % 3 == 0) { Q c; while (c.empty()) c = kr(k); a = xsc(a, c, k); }
  return a;
}
template <class A> static void rone(const K &k, int d) { int m = rnd() % 8; if (m == 0) one<A>(rx(1, d, k), k); else if (m == 1) { X a = rx(1, d, k); if (!(a[0].empty())) irrtest<A>(a, k); X b = rx(1, d / 2 + 1, k), c = rx(1, d / 2 + 1, k); irrtest<A>(xmul(b, c, k), k); irrtest<A>(xpow(rx(1, 3, k), rnd() % 2 ? 2 : (long)std::min<ll_>(k.p, 7), k), k); } else one<A>(rprod(k, d), k); }
int main(int c, char **v) {
  static const int SP[] = {2, 3, 5, 7, 11, 13, 17, 31, 101};
  H::add("every f2 polynomial of small degree", 1, [] { K k = fpk(2); for (unsigned long long i = 1; i < 1024; i++) one<A2>(xnum<A2>(i, k), k); for (unsigned long long i = 0; i < 6000; i++) irrtest<A2>(xnum<A2>(i, k), k); }, nullptr);
  H::add("every fp polynomial of small degree", 1, [] { for (int p : {2, 3, 5, 7, 11}) { K k = fpk(p); unsigned long long n = p == 2 ? 128 : p == 3 ? 700 : p == 5 ? 900 : 500; for (unsigned long long i = 1; i < n; i++) one<AP>(xnum<AP>(i, k), k); } }, nullptr);
  H::add("every f2n polynomial of small degree", 1, [] { for (auto &k : fields(0)) if (dg(k.m) <= 3) { int n = dg(k.m) == 1 ? 64 : dg(k.m) == 2 ? 256 : 300; for (int i = 1; i < n; i++) { X a = xnum<AN>(i, k); one<AN>(a, k); roots(a, k); } } }, nullptr);
  H::add("finding irreducibles", 1, [] { for (int d = -1; d <= 12; d++) finds<A2>(d, fpk(2)); for (int d : {20, 31, 32, 33, 64, 65}) finds<A2>(d, fpk(2)); for (int p : {2, 3, 5, 7, 13, 101}) for (int d = -1; d <= (p < 6 ? 6 : 3); d++) finds<AP>(d, fpk(p)); for (auto &k : fields(0)) if (dg(k.m) <= 5) for (int d = -1; d <= 3; d++) finds<AN>(d, k); }, nullptr);
  H::add("powers of x, x^q - x, x^n - 1", 1, [] { for (int n = 1; n <= 40; n++) { X a(n + 1); a[n] = Q{1}; a[0] = Q{1}; one<A2>(a, fpk(2)); for (int p : {2, 3, 5, 7}) { if (n > 20) break; K k = fpk(p); X b(n + 1); b[n] = Q{1}; one<AP>(b, k); b[0] = Q{p - 1}; one<AP>(b, k); if (n == p && p > 1) { X e(n + 1); e[n] = Q{1}; e[1] = Q{p - 1}; if (n > 1) one<AP>(e, k); } } }
    for (auto &k : fields(0)) if (dg(k.m) <= 4) for (int n = 1; n <= 17; n++) { X b(n + 1); b[n] = kint(1, k); one<AN>(b, k); b[0] = kint(1, k); one<AN>(b, k); roots(b, k); if (n > 1) { X e(n + 1); e[n] = kint(1, k); e[1] = kint(1, k); one<AN>(e, k); roots(e, k); } } }, nullptr);
  H::add("random f2", 1.5, nullptr, [] { rone<A2>(fpk(2), rnd() % 4 ? 24 : 80); });
  H::add("random fp", 1.5, nullptr, [] { int p = rnd() % 12 ? SP[rnd() % 8] : 101; rone<AP>(fpk(p), p > 20 ? 8 : 20); });
  H::add("random f2n", 1.5, nullptr, [] { const K &k = nk(); int d = dg(k.m) > 5 ? 5 : 12; rone<AN>(k, d); if (dg(k.m) <= 5) roots(rprod(k, d), k); });
  H::add("random irreducibles", 0.5, nullptr, [] { switch (rnd() % 3) { case 0: finds<A2>((int)rin(1, 40), fpk(2)); break; case 1: finds<AP>((int)rin(1, 6), fpk(SP[rnd() % 6])); break; default: { const K &k = nk(); if (dg(k.m) <= 4) finds<AN>((int)rin(1, 4), k); } } });
  return H::run(c, v);
}
