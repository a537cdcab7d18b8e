#define EXT_F2N
#include "ext_t.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
using namespace H;
using namespace spffl::rationals; using namespace spffl::polynomials;
struct R2 { typedef f2_polyrat_t R; typedef f2_poly_t P; static P mk(const X &a, const K &) { P r; for (size_t i = 0; i < a.size(); i++) if (!a[i].empty()) r.set_bit((int)i); return r; } static X rd(const P &p, const K &) { X a(p.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) if (p.bit_at((int)i)) a[i] = Q{1}; return xtr(a); } };
struct RP { typedef fp_polyrat_t R; typedef fp_poly_t P; static P mk(const X &a, const K &k) { P r(intmod_t((int)cf(xc(a, 0), 0), (int)k.p)); for (size_t i = 1; i < a.size(); i++) if (!a[i].empty()) r.set_coeff((int)i, intmod_t((int)a[i][0], (int)k.p)); return r; } static X rd(const P &p, const K &k) { X a(p.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) { intmod_t c = p.get_coeff((int)i); if (c.get_modulus() != k.p) H::FAIL("a coefficient is modulo %d, expected %d", c.get_modulus(), (int)k.p); a[i] = tr(Q{c.get_residue()}); } return xtr(a); } };
struct RN { typedef f2n_polyrat_t R; typedef f2n_poly_t P; static P mk(const X &a, const K &k) { return mkx<T2N>(a, k); } static X rd(const P &p, const K &k) { X a; for (int i = 0; i <= p.find_degree(); i++) a.push_back(rdc<T2N>(p.get_coeff(i), k, "coefficient", __LINE__)); return xtr(a); } };
template <class T> static void samer(const typename T::R &x, const X &n, const X &d, const K &k, const char *w, int line) {
  X a = T::rd(x.get_numerator(), k), b = T::rd(x.get_denominator(), k);
  if (b.empty()) H::FAIL("%s: zero denominator (line %d)", w, line);
  if (xmul(a, d, k) != xmul(n, b, k)) H::FAIL("%s: %s / %s, expected %s / %s (line %d)", w, xs(a).c_str(), xs(b).c_str(), xs(n).c_str(), xs(d).c_str(), line);
  if (xdg(xgcd(a, b, k)) != 0) H::FAIL("%s: %s / %s is not in lowest terms (line %d)", w, xs(a).c_str(), xs(b).c_str(), line);
  if (x.get_characteristic() != k.p) H::FAIL("%s: characteristic (line %d)", w, line);
  typename T::R e(T::mk(n, k), T::mk(d, k)); if (!(x == e) || x != e || !(e == x)) H::FAIL("%s: %s / %s does not compare equal to the fraction built from %s and %s (line %d)", w, xs(a).c_str(), xs(b).c_str(), xs(n).c_str(), xs(d).c_str(), line);
}
#define SAMER(x, n, d) samer<T>(x, n, d, k, #x, __LINE__)
template <class T> static void pair(const X &a, const X &b, const X &c, const X &d, const K &k) {
  typedef typename T::R R; CASE("%s / %s with %s / %s over %s", xs(a).c_str(), xs(b).c_str(), xs(c).c_str(), xs(d).c_str(), ks(k).c_str());
  if (b.empty()) { CHECK(throws([&] { R(T::mk(a, k), T::mk(b, k)); })); return; } if (d.empty()) return;
  X z, one = xone(k), ad = xmul(a, d, k), bc = xmul(b, c, k), bd = xmul(b, d, k), ac = xmul(a, c, k);
  R x(T::mk(a, k), T::mk(b, k)), y(T::mk(c, k), T::mk(d, k)); SAMER(x, a, b); SAMER(y, c, d);
  NOTHROW(SAMER(x + y, xadd(ad, bc, k), bd)); NOTHROW(SAMER(x - y, xsub(ad, bc, k), bd)); NOTHROW(SAMER(x * y, ac, bd)); NOTHROW(SAMER(-x, xsub(z, a, k), b)); NOTHROW(SAMER(-y, xsub(z, c, k), d));
  CHECK((x == y) == (ad == bc)); CHECK((x != y) == (ad != bc)); CHECK((x == T::mk(c, k)) == (a == bc || xmul(a, one, k) == xmul(b, c, k))); CHECK((x != T::mk(c, k)) == (a != bc));
  if (c.empty()) { CHECK(throws([&] { x / y; })); CHECK(throws([&] { x % y; })); CHECK(throws([&] { R t = x; t /= y; })); CHECK(throws([&] { R t = x; t %= y; })); }
  else { NOTHROW(SAMER(x / y, ad, bc)); NOTHROW(SAMER(x % y, z, one)); R t = x; NOTHROW(t /= y); SAMER(t, ad, bc); NOTHROW(t *= y); SAMER(t, a, b); t = x; NOTHROW(t %= y); SAMER(t, z, one); t = y; NOTHROW(t /= t); SAMER(t, one, one); }
  R t = x; t += y; SAMER(t, xadd(ad, bc, k), bd); t -= y; SAMER(t, a, b); t *= y; SAMER(t, ac, bd); t = x; t += t; SAMER(t, xadd(a, a, k), b); t = x; t *= t; SAMER(t, xmul(a, a, k), xmul(b, b, k)); t -= t; SAMER(t, z, one);
  R u(x), v(y); v = u; SAMER(v, a, b); v = v; SAMER(v, a, b); v = y; SAMER(v, c, d); SAMER(u, a, b); v = T::mk(a, k); SAMER(v, a, one); SAMER(R(T::mk(c, k)), c, one);
  for (int s : {0, 1, 2, 3, -1}) SAMER(x.prime_subfield_element(s), xtr(X{kint(s, k)}), one);
  SAMER(x, a, b); SAMER(y, c, d);
}
template <class T> static void pw(const X &a, const X &b, int e, const K &k) {
  if (b.empty()) return; typedef typename T::R R; CASE("(%s / %s) to the power %d over %s", xs(a).c_str(), xs(b).c_str(), e, ks(k).c_str());
  R x(T::mk(a, k), T::mk(b, k)), t = x;
  if (a.empty() ? e <= 0 : e == -2147483647 - 1) { CHECK(throws([&] { x.exp(e); })); return; }
  NOTHROW(t = x.exp(e)); if (a.empty() || (xdg(a) == 0 && xdg(b) == 0)) { Q n = a.empty() ? Q() : kpow(kmul(a[0], kinv(b[0], k), k), e < 0 ? -(long long)e : e, k); if (e < 0) n = kinv(n, k); SAMER(t, xtr(X{n}), xone(k)); } else if (e < 0) SAMER(t, xpow(b, -e, k), xpow(a, -e, k)); else SAMER(t, xpow(a, e, k), xpow(b, e, k));
  SAMER(x, a, b);
}
template <class T> static void fixed(const std::vector<K> &F) { for (auto &k : F) { std::vector<X> A; K kk = k; if (k.simple()) { for (ll_ v = 0; v < (k.p == 2 ? 8 : 7); v++) { X x; for (ll_ c : qnum(v * (k.p == 2 ? 1 : k.p - 1) % (k.p * k.p), k.p)) x.push_back(kint(c, k)); A.push_back(xtr(x)); } } else A = allx(2, kk, 6);
  for (auto &a : A) for (auto &b : A) for (auto &c : A) if (&c - &A[0] < 3) for (auto &d : A) if (&d - &A[0] < 3 || k.p == 2 && k.simple()) pair<T>(a, b, c, d, k);
  for (auto &a : A) for (auto &b : A) for (int e : {0, 1, 2, 3, 5, -1, -2, -4, -2147483647 - 1}) pw<T>(a, b, e, k); } }
template <class T> static void rnd1(const K &k) { X a = xr(5, k), b = xr(5, k), c = xr(5, k), d = xr(5, k); if (rnd() % 2) { X h = xr(3, k); a = xmul(a, h, k); (rnd() % 2 ? b : d) = xmul(b, h, k); } if (rnd() % 3 == 0) { c = xsub(X(), a, k); if (rnd() % 2) d = b; } pair<T>(a, b, c, d, k); pw<T>(xr(3, k), xr(3, k), (int)rin(-7, 7), k); }
static std::vector<K> PF() { std::vector<K> r; for (ll_ p : {2, 3, 5, 7, 11, 101, 46337}) r.push_back(K{p, Q()}); return r; }
static X big(int d) { X a(d + 1); for (auto &x : a) if (rnd() & 1) x = Q{1}; return xtr(a); }
int main(int c, char **v) {
  H::add("F2", 3, [] { fixed<R2>({K{2, Q()}}); }, [] { K k{2, Q()}; rnd1<R2>(k); if (rnd() % 8 == 0) { X h = big(rin(0, 70)); pair<R2>(xmul(big(70), h, k), xmul(big(66), h, k), big((int)rin(0, 130)), big((int)rin(0, 70)), k); } });
  H::add("Fp", 3, [] { auto F = PF(); F.resize(3); fixed<RP>(F); }, [] { auto F = PF(); rnd1<RP>(F[rnd() % F.size()]); });
  H::add("F2n", 3, [] { auto F = small_fields(0); F.resize(3); fixed<RN>(F); }, [] { rnd1<RN>(rk(0)); });
  return H::run(c, v);
}
