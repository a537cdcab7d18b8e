// traits binding the oracle of ext.h to the real polynomial classes, and the shared checks
#pragma once
#include "ext.h"
#include "spffl/polynomials/f2_poly_t.h"
#include "spffl/polynomials/fp_poly_t.h"
using H::throws;
using spffl::intmath::intmod_t;
#ifdef EXT_F2N
#include "spffl/polynomials/f2n_poly_t.h"
#include "spffl/polynomials/f2n_polymod_t.h"
struct T2N {
  typedef spffl::polynomials::f2n_poly_t P; typedef spffl::polynomials::f2_polymod_t C; typedef spffl::polynomials::f2n_polymod_t PM; typedef spffl::polynomials::f2_poly_t B;
  static B base(const Q &a, const K &) { B r; for (size_t i = 0; i < a.size(); i++) if (a[i]) r.set_bit((int)i); return r; }
  static Q unbase(const B &b, const K &) { Q a(b.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) a[i] = b.bit_at((int)i); return tr(a); }
};
#endif
#ifdef EXT_FPN
#include "spffl/polynomials/fpn_poly_t.h"
#include "spffl/polynomials/fpn_polymod_t.h"
struct TPN {
  typedef spffl::polynomials::fpn_poly_t P; typedef spffl::polynomials::fp_polymod_t C; typedef spffl::polynomials::fpn_polymod_t PM; typedef spffl::polynomials::fp_poly_t B;
  static B base(const Q &a, const K &k) { B r(intmod_t((int)cf(a, 0), (int)k.p)); for (size_t i = 1; i < a.size(); i++) if (a[i]) r.set_coeff((int)i, intmod_t((int)a[i], (int)k.p)); return r; }
  static Q unbase(const B &b, const K &k) { Q a(b.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) { intmod_t c = b.get_coeff((int)i); if (c.get_modulus() != k.p) H::FAIL("a coefficient of a coefficient is modulo %d, expected %d", c.get_modulus(), (int)k.p); a[i] = c.get_residue(); } return tr(a); }
};
#endif
template <class T> static typename T::C mkc(const Q &a, const K &k) { return typename T::C(T::base(a, k), T::base(k.m, k)); }
template <class T> static Q rdc(const typename T::C &c, const K &k, const char *w, int line) { if (T::unbase(c.get_modulus(), k) != k.m) H::FAIL("%s: coefficient carries the wrong modulus (line %d)", w, line); return T::unbase(c.get_residue(), k); }
template <class T> static typename T::P mkx(const X &a, const K &k) { typename T::P r(mkc<T>(xc(a, 0), k)); for (size_t i = 1; i < a.size(); i++) if (!a[i].empty()) r.set_coeff((int)i, mkc<T>(a[i], k)); return r; }
template <class T> static void samex(const typename T::P &x, const X &a, const K &k, const char *w, int line) {
  int d = x.find_degree();
  if (d != xdg0(a)) H::FAIL("%s: degree %d, expected %d (%s) (line %d)", w, d, xdg0(a), xs(a).c_str(), line);
  if (x.get_characteristic() != k.p) H::FAIL("%s: characteristic (line %d)", w, line);
  for (int i = 0; i <= xdg0(a) + 2; i++) { Q c = rdc<T>(x.get_coeff(i), k, w, line); if (c != xc(a, i)) H::FAIL("%s: coefficient %d is %s, expected %s in %s (line %d)", w, i, qs(c).c_str(), qs(xc(a, i)).c_str(), ks(k).c_str(), line); }
  if ((x == 0) != a.empty() || (x != 0) == a.empty() || (x == 1) != (a == xone(k)) || (x != 1) == (a == xone(k))) H::FAIL("%s: comparison with an integer (line %d)", w, line);
  typename T::P e = mkx<T>(a, k);
  if (!(x == e) || x != e || !(e == x) || x < e || x > e || !(x <= e) || !(x >= e)) H::FAIL("%s: does not compare equal to the same polynomial built coefficient by coefficient (line %d)", w, line);
}
#define SAMEX(x, a) samex<T>(x, a, k, #x, __LINE__)
#define SAMEC(x, a) do { Q c_ = rdc<T>(x, k, #x, __LINE__); if (c_ != (a)) H::FAIL("%s: %s, expected %s in %s (line %d)", #x, qs(c_).c_str(), qs(a).c_str(), ks(k).c_str(), __LINE__); } while (0)
template <class T> static typename T::PM mkpm(const X &a, const X &m, const K &k) { return typename T::PM(mkx<T>(a, k), mkx<T>(m, k)); }
template <class T> static void samepm(const typename T::PM &x, const X &a, const X &m, const K &k, const char *w, int line) {
  samex<T>(x.get_residue(), a, k, w, line); samex<T>(x.get_modulus(), m, k, w, line);
  if (x.get_characteristic() != k.p) H::FAIL("%s: characteristic (line %d)", w, line);
  typename T::PM e = mkpm<T>(a, m, k);
  if (!(x == e) || x != e || x < e || x > e || !(x <= e) || !(x >= e)) H::FAIL("%s: unequal to the same residue class built from its parts (line %d)", w, line);
  if ((x == 0) != a.empty() || (x != 0) == a.empty() || (x == 1) != (a == xone(k)) || (x != 1) == (a == xone(k))) H::FAIL("%s: comparison with an integer (line %d)", w, line);
}
#define SAMEPM(x, a) samepm<T>(x, a, m, k, #x, __LINE__)

template <class T> static void poly_pair(const X &a, const X &b, const K &k) {
  typedef typename T::P P;
  CASE("a=%s b=%s over %s", xs(a).c_str(), xs(b).c_str(), ks(k).c_str());
  P x = mkx<T>(a, k), y = mkx<T>(b, k); SAMEX(x, a); SAMEX(y, b);
  X s = xadd(a, b, k), d = xsub(a, b, k), pr = xmul(a, b, k), z;
  SAMEX(x + y, s); SAMEX(x - y, d); SAMEX(x * y, pr); SAMEX(-x, xsub(z, a, k)); SAMEX(-y, xsub(z, b, k));
  { P t = x; t += y; SAMEX(t, s); t -= y; SAMEX(t, a); t *= y; SAMEX(t, pr); t = x; t += t; SAMEX(t, xadd(a, a, k)); t = x; t -= t; SAMEX(t, z); t = x; t *= t; SAMEX(t, xmul(a, a, k)); P u(x), v; v = u; SAMEX(v, a); v = v; SAMEX(v, a); v = y; SAMEX(v, b); SAMEX(u, a); v.set_coeff(3, mkc<T>(Q{1}, k)); SAMEX(y, b); }
  int c = xcmp(a, b);
  CHECK((x < y) == (c < 0)); CHECK((x > y) == (c > 0)); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0)); CHECK((x == y) == (c == 0)); CHECK((x != y) == (c != 0));
  if (b.empty()) {
    P q, r; CHECK(throws([&] { x / y; })); CHECK(throws([&] { x % y; })); CHECK(throws([&] { x.quot_and_rem(y, q, r); })); CHECK(throws([&] { q = x; q /= y; })); CHECK(throws([&] { q = x; q %= y; }));
  } else {
    X q, r; xdm(a, b, k, q, r); P qq, rr; NOTHROW(x.quot_and_rem(y, qq, rr)); SAMEX(qq, q); SAMEX(rr, r);
    NOTHROW(qq = x / y); SAMEX(qq, q); NOTHROW(rr = x % y); SAMEX(rr, r);
    qq = x; NOTHROW(qq /= y); SAMEX(qq, q); rr = x; NOTHROW(rr %= y); SAMEX(rr, r);
    qq = y; NOTHROW(qq /= qq); SAMEX(qq, xone(k)); rr = y; NOTHROW(rr %= rr); SAMEX(rr, z);
  }
  X g = xgcd(a, b, k); P gg; NOTHROW(gg = x.gcd(y)); 
  auto rd = [&](const P &p) { X o; for (int i = 0; i <= p.find_degree(); i++) o.push_back(rdc<T>(p.get_coeff(i), k, "coefficient", __LINE__)); return xtr(o); };
  X og = rd(gg); if (xmonic(og, k) != g) H::FAIL("gcd is %s, expected a unit multiple of %s", xs(og).c_str(), xs(g).c_str()); SAMEX(gg, og);
  { P h = gcd(x, y); SAMEX(h, og); }
  P rm, rn; NOTHROW(gg = x.ext_gcd(y, rm, rn)); og = rd(gg); X om = rd(rm), on = rd(rn); SAMEX(gg, og); SAMEX(rm, om); SAMEX(rn, on);
  if (xmonic(og, k) != g) H::FAIL("ext_gcd is %s, expected a unit multiple of %s", xs(og).c_str(), xs(g).c_str());
  if (xadd(xmul(om, a, k), xmul(on, b, k), k) != og) H::FAIL("ext_gcd: %s*a + %s*b is not the gcd %s", xs(om).c_str(), xs(on).c_str(), xs(og).c_str());
  SAMEX(x, a); SAMEX(y, b);
}
template <class T> static void poly_one(const X &a, const Q &c, int pos, const K &k) {
  typedef typename T::P P;
  CASE("a=%s c=%s position %d over %s", xs(a).c_str(), qs(c).c_str(), pos, ks(k).c_str());
  P x = mkx<T>(a, k); typename T::C cc = mkc<T>(c, k); SAMEC(cc, c); X C = xtr(X{c}), z;
  SAMEX(P(cc), C); SAMEX(x + cc, xadd(a, C, k)); SAMEX(x - cc, xsub(a, C, k)); SAMEX(x * cc, xsc(a, c, k));
  { P t = x; t += cc; SAMEX(t, xadd(a, C, k)); t = x; t -= cc; SAMEX(t, xsub(a, C, k)); t = x; t *= cc; SAMEX(t, xsc(a, c, k)); }
  if (c.empty()) { CHECK(throws([&] { x / cc; })); CHECK(throws([&] { P t = x; t /= cc; })); }
  else { P t; X o = xsc(a, kinv(c, k), k); NOTHROW(t = x / cc); SAMEX(t, o); t = x; NOTHROW(t /= cc); SAMEX(t, o); }
  SAMEC(x.eval(cc), xev(a, c, k)); SAMEX(x.deriv(), xder(a, k));
  { P t = x; X o = a; if ((int)o.size() <= pos) o.resize(pos + 1); o[pos] = c; o = xtr(o); t.set_coeff(pos, cc); SAMEX(t, o); t.set_coeff(pos, mkc<T>(Q(), k)); o = a; if ((int)o.size() > pos) o[pos] = Q(); o = xtr(o); SAMEX(t, o); SAMEX(x, a); }
  CHECK(throws([&] { x.get_coeff(-1 - pos); })); CHECK(throws([&] { P t = x; t.set_coeff(-1 - pos, cc); }));
  { P t = x; t.promote(); X o = a; if (!o.empty()) o.insert(o.begin(), Q()); SAMEX(t, o); t = x; t.promote_and_add(cc); SAMEX(t, xadd(o, C, k)); }
  for (int v : {0, 1, 2, 3, -1, 7, -12}) { SAMEX(x.prime_subfield_element(v), xtr(X{kint(v, k)})); SAMEX(P::prime_subfield_element(v, T::base(k.m, k)), xtr(X{kint(v, k)})); }
  X two = xtr(X{xc(a, 0), c}), three = xtr(X{c, xc(a, 0), xc(a, 1)});
  SAMEX(P(cc, x.get_coeff(0)), two); SAMEX(P(x.get_coeff(1), x.get_coeff(0), cc), three);
}
template <class T> static void poly_exp(const X &a, int e, const K &k) {
  typedef typename T::P P; CASE("a=%s to the power %d over %s", xs(a).c_str(), e, ks(k).c_str()); P x = mkx<T>(a, k), t;
  if (a.empty() ? e <= 0 : a.size() > 1 && e < 0) { CHECK(throws([&] { x.exp(e); })); return; }
  NOTHROW(t = x.exp(e)); if (a.size() == 1) { Q c = kpow(e < 0 ? kinv(a[0], k) : a[0], e < 0 ? -(long long)e : e, k); SAMEX(t, xtr(X{c})); } else SAMEX(t, xpow(a, e, k)); SAMEX(x, a);
}
template <class T> static void pm_pair(const X &a0, const X &b0, const X &m, const K &k) {
  typedef typename T::PM PM;
  CASE("a=%s b=%s mod %s over %s", xs(a0).c_str(), xs(b0).c_str(), xs(m).c_str(), ks(k).c_str());
  X a = xmod(a0, m, k), b = xmod(b0, m, k), z; PM x = mkpm<T>(a0, m, k), y = mkpm<T>(b0, m, k); SAMEPM(x, a); SAMEPM(y, b);
  X pr = xmod(xmul(a, b, k), m, k);
  SAMEPM(x + y, xadd(a, b, k)); SAMEPM(x - y, xsub(a, b, k)); SAMEPM(x * y, pr); SAMEPM(-x, xsub(z, a, k));
  { PM t = x; t += y; SAMEPM(t, xadd(a, b, k)); t -= y; SAMEPM(t, a); t *= y; SAMEPM(t, pr); t = x; t *= t; SAMEPM(t, xmod(xmul(a, a, k), m, k)); t = x; t -= t; SAMEPM(t, z); PM u(x), v; v = u; SAMEPM(v, a); v = v; v = y; SAMEPM(v, b); SAMEPM(u, a); }
  int c = xcmp(a, b);
  CHECK((x < y) == (c < 0)); CHECK((x > y) == (c > 0)); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0)); CHECK((x == y) == (c == 0)); CHECK((x != y) == (c != 0));
  X iv = xinv(b, m, k); bool unit = xdg(xgcd(b, m, k)) == 0; PM r = x; bool g = false; NOTHROW(g = y.recip(r)); CHECK(g == unit);
  if (unit) {
    SAMEPM(r, iv); X q = xmod(xmul(a, iv, k), m, k); NOTHROW(r = x / y); SAMEPM(r, q); NOTHROW(r = x % y); SAMEPM(r, z); r = x; NOTHROW(r /= y); SAMEPM(r, q); r = x; NOTHROW(r %= y); SAMEPM(r, z); r = y; NOTHROW(r /= r); SAMEPM(r, xmod(xone(k), m, k)); r = y; NOTHROW(g = r.recip(r)); SAMEPM(r, iv);
  } else { SAMEPM(r, a); CHECK(throws([&] { x / y; })); CHECK(throws([&] { x % y; })); CHECK(throws([&] { r = x; r /= y; })); SAMEPM(r, a); }
  for (int v : {0, 1, 2, 3, 10, -1, -7}) { SAMEPM(x * v, xsc(a, kint(v, k), k)); PM t = x; t *= v; SAMEPM(t, xsc(a, kint(v, k), k)); SAMEPM(x.prime_subfield_element(v), xtr(X{kint(v, k)})); SAMEPM(PM::prime_subfield_element(v, mkx<T>(m, k)), xtr(X{kint(v, k)})); }
  SAMEPM(x, a); SAMEPM(y, b);
}
template <class T> static void pm_exp(const X &a0, int e, const X &m, const K &k) {
  typedef typename T::PM PM; CASE("a=%s to the power %d mod %s over %s", xs(a0).c_str(), e, xs(m).c_str(), ks(k).c_str());
  X a = xmod(a0, m, k); PM x = mkpm<T>(a0, m, k), t; bool unit = xdg(xgcd(a, m, k)) == 0;
  if (a.empty() ? e <= 0 : e < 0 && (!unit || e == -2147483647 - 1)) { CHECK(throws([&] { x.exp(e); })); return; }
  NOTHROW(t = x.exp(e)); X o = e < 0 ? xpowmod(xinv(a, m, k), -(long long)e, m, k) : xpowmod(a, e, m, k); SAMEPM(t, o); SAMEPM(x, a);
}
template <class T> static void pm_mixed(const X &a, const X &b, const X &m, const X &m2, const K &k) {
  if (m == m2) return; typedef typename T::PM PM;
  CASE("a=%s mod %s with b=%s mod %s over %s", xs(a).c_str(), xs(m).c_str(), xs(b).c_str(), xs(m2).c_str(), ks(k).c_str());
  PM x = mkpm<T>(a, m, k), y = mkpm<T>(b, m2, k);
  CHECK(throws([&] { x + y; })); CHECK(throws([&] { x - y; })); CHECK(throws([&] { x * y; })); CHECK(throws([&] { x / y; })); CHECK(throws([&] { x % y; })); CHECK(throws([&] { (void)(x < y); })); CHECK(throws([&] { (void)(x >= y); })); CHECK(!(x == y)); CHECK(x != y);
  PM t = x; CHECK(throws([&] { t += y; })); SAMEPM(t, xmod(a, m, k));
}
static inline const K &rk(int w) { const auto &f = fields(w); return f[H::rnd() % f.size()]; }
static inline X rmod(int lo, int hi, const K &k) { X m; do m = xr(hi, k); while (xdg(m) < lo); return m; }
// every polynomial of at most n coefficients over k
static inline std::vector<X> allx(int n, const K &k, size_t cap) { unsigned long long q = 1; for (int i = 0; i < dg(k.m); i++) q *= k.p; std::vector<X> r{X()}; for (int d = 0; d < n && r.size() < cap; d++) { std::vector<X> nx; for (auto &x : r) for (unsigned long long v = 0; v < q && nx.size() < cap; v++) { X y{knum(v, k)}; y.insert(y.end(), x.begin(), x.end()); nx.push_back(xtr(y)); } r = nx; } return r; }
// the fields of the exhaustive parts: the large ones are left to the random parts
static inline std::vector<K> small_fields(int w) { std::vector<K> r; for (auto &k : fields(w)) if (dg(k.m) <= 4 && k.p < 20) r.push_back(k); return r; }
template <class T> static int ext_main(int w, int c, char **v, void (*fx)() = 0, void (*rx)() = 0) {
  static int W; W = w; static void (*FX)(), (*RX)(); FX = fx; RX = rx;
  static const int E[] = {0, 1, 2, 3, 4, 5, 7, 8, -1, -2, -5, 2147483647, -2147483647, -2147483647 - 1};
  H::add("polynomial pairs", 5, [] { const auto F = small_fields(W); for (size_t i = 0; i < F.size(); i++) { auto A = allx(2, F[i], 8); for (auto &a : A) for (auto &b : A) if (&a <= &b || i % 3 == 0) poly_pair<T>(a, b, F[i]); } },
    [] { const K &k = rk(W); X a = xr(6, k), b = xr(5, k); if (H::rnd() % 3 == 0) { X h = xr(3, k); a = xmul(a, h, k); b = xmul(b, h, k); } if (H::rnd() % 8 == 0) b = a; poly_pair<T>(a, b, k); });
  H::add("single polynomials", 4, [] { const auto F = small_fields(W); for (auto &k : F) for (auto &a : allx(3, k, 6)) for (auto &c : {Q(), kr(k)}) for (int pos : {0, 1, 4}) poly_one<T>(a, kred(c, k), pos, k); },
    [] { const K &k = rk(W); poly_one<T>(xr(8, k), kr(k), (int)H::rin(0, 10), k); });
  H::add("powers", 2, [] { for (auto &k : small_fields(W)) for (auto &a : allx(2, k, 10)) for (int e : {0, 1, 2, 3, 4, 5, 9, -1, -3}) poly_exp<T>(a, e, k); }, [] { const K &k = rk(W); X a = xr(4, k); poly_exp<T>(a, a.size() < 2 ? (int)H::rin(-2000, 2000) : (int)H::rin(-2, 9), k); });
  H::add("residue pairs", 4, [] { const auto F = small_fields(W); for (auto &k : F) for (auto &m : allx(3, k, 7)) if (xdg(m) > 0) for (auto &a : allx(2, k, 3)) for (auto &b : allx(2, k, 3)) pm_pair<T>(a, b, m, k); },
    [] { const K &k = rk(W); X m = rmod(1, 4, k); if (H::rnd() % 3 == 0) m = xmul(m, rmod(1, 2, k), k); X a = xr(6, k), b = xr(6, k); if (H::rnd() % 4 == 0) b = xmul(b, rmod(1, 1, k), k); pm_pair<T>(a, b, m, k); });
  H::add("residue powers", 2, [] { for (auto &k : small_fields(W)) for (auto &m : allx(3, k, 6)) if (xdg(m) > 0) for (auto &a : allx(2, k, 3)) for (int e : E) pm_exp<T>(a, e, m, k); }, [] { const K &k = rk(W); pm_exp<T>(xr(4, k), H::rnd() % 3 ? (int)H::rin(-40, 40) : E[H::rnd() % 14], rmod(1, 4, k), k); });
  H::add("mixed moduli", 1, [] {}, [] { const K &k = rk(W); X m = rmod(1, 3, k), m2 = H::rnd() % 2 ? rmod(1, 3, k) : xadd(m, X{kint(1, k)}, k); if (xdg(m2) < 1) return; pm_mixed<T>(xr(3, k), xr(3, k), m, m2, k); });
  H::add("class-specific operations", 2, [] { if (FX) FX(); }, [] { if (RX) RX(); });
  return H::run(c, v);
}
