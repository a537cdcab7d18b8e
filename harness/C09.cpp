#include "f2.h"
#include "spffl/polynomials/f2_polymod_t.h"
using namespace H;
using spffl::polynomials::f2_polymod_t;
static f2_polymod_t mk(const Q &a, const Q &m) { return f2_polymod_t(mkp(a), mkp(m)); }
static void samem(const f2_polymod_t &x, const Q &a, const Q &m, const char *w, int line) {
  samep(x.get_residue(), a, w, line); samep(x.get_modulus(), m, w, line);
  f2_polymod_t e = mk(a, m);
  if (!(x == e) || x != e || x < e || x > e || !(x <= e) || !(x >= e)) H::FAIL("%s: unequal to the same residue class built from its parts (line %d)", w, line);
  if ((x == 0) != a.empty() || (x != 0) == a.empty() || (x == 1) != (a == Q{1}) || (x != 1) == (a == Q{1})) H::FAIL("%s: comparison with an integer (line %d)", w, line);
}
#define SAMEM(x, a) samem(x, a, m, #x, __LINE__)
static void pair(const Q &a0, const Q &b0, const Q &m) {
  CASE("a=%s b=%s mod %s", bs(a0).c_str(), bs(b0).c_str(), bs(m).c_str());
  Q a = qmod(a0, m, 2), b = qmod(b0, m, 2);
  f2_polymod_t x = mk(a0, m), y = mk(b0, m);
  SAMEM(x, a); SAMEM(y, b);
  Q s = qadd(a, b, 2), p = qmod(qmul(a, b, 2), m, 2);
  SAMEM(x + y, s); SAMEM(x - y, s); SAMEM(x * y, p); SAMEM(-x, a); SAMEM(x * 3, a); SAMEM(x * -2, Q()); SAMEM(x * 0, Q());
  { f2_polymod_t t = x; t += y; SAMEM(t, s); t -= y; SAMEM(t, a); t *= y; SAMEM(t, p); t = x; t += t; SAMEM(t, Q()); t = x; t *= t; SAMEM(t, qmod(qmul(a, a, 2), m, 2)); t = x; t *= 1; SAMEM(t, a); t *= 2; SAMEM(t, Q()); t = x; t -= t; SAMEM(t, Q()); f2_polymod_t u(x), z; z = u; SAMEM(z, a); z = z; SAMEM(z, a); }
  SAMEM(x.prime_subfield_element(5), Q{1}); SAMEM(x.prime_subfield_element(-4), Q()); SAMEM(f2_polymod_t::prime_subfield_element(-1, mkp(m)), Q{1});
  int c = qcmp(a, b);
  CHECK((x < y) == (c < 0)); CHECK((x > y) == (c > 0)); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0)); CHECK((x == y) == (c == 0)); CHECK((x != y) == (c != 0));
  Q iv = qinv(b, m, 2); bool unit = qgcd(b, m, 2) == Q{1};
  f2_polymod_t r = x; bool g = false; NOTHROW(g = y.recip(r)); CHECK(g == unit);
  if (unit) {
    SAMEM(r, iv); Q q = qmod(qmul(a, iv, 2), m, 2);
    NOTHROW(r = x / y); SAMEM(r, q); NOTHROW(r = x % y); SAMEM(r, Q());
    r = x; NOTHROW(r /= y); SAMEM(r, q); r = x; NOTHROW(r %= y); SAMEM(r, Q()); r = y; NOTHROW(r /= r); SAMEM(r, qmod(Q{1}, m, 2)); r = y; NOTHROW(r %= r); SAMEM(r, Q());
  } else {
    SAMEM(r, a); CHECK(throws([&] { x / y; })); CHECK(throws([&] { x % y; })); CHECK(throws([&] { r = x; r /= y; })); SAMEM(r, a);
  }
  Q m2 = qadd(m, Q{1}, 2);
  { f2_polymod_t z = mk(b0, m2), t = x;
    CHECK(throws([&] { x + z; })); CHECK(throws([&] { x - z; })); CHECK(throws([&] { x * z; })); CHECK(throws([&] { x / z; })); CHECK(throws([&] { x % z; })); CHECK(throws([&] { (void)(x < z); })); CHECK(throws([&] { (void)(x <= z); })); CHECK(throws([&] { (void)(x > z); })); CHECK(throws([&] { (void)(x >= z); })); CHECK(throws([&] { t += z; })); CHECK(throws([&] { t -= z; })); CHECK(throws([&] { t *= z; })); CHECK(throws([&] { t /= z; })); CHECK(throws([&] { t %= z; })); CHECK(!(x == z)); CHECK(x != z); SAMEM(t, a);
    Q m3 = m2; m3.push_back(0); m3.back() = 1; f2_polymod_t w = mk(b0, m3); CHECK(throws([&] { x + w; })); CHECK(throws([&] { x * w; })); CHECK(throws([&] { w / x; })); CHECK(x != w);
    if (dg(m2) > 0) { t = x; NOTHROW(t.change_modulus(mkp(m2))); samem(t, qmod(a, m2, 2), m2, "change_modulus", __LINE__); } }
  SAMEM(x, a); SAMEM(y, b);
}
static void ex(const Q &a0, long long e, const Q &m) {
  CASE("a=%s mod %s exp %lld", bs(a0).c_str(), bs(m).c_str(), e);
  Q a = qmod(a0, m, 2); f2_polymod_t x = mk(a0, m), r; bool unit = qgcd(a, m, 2) == Q{1};
  if ((e == 0 && a.empty()) || (e < 0 && !unit) || (int)e == INT_MIN) { CHECK(throws([&] { x.exp((int)e); })); SAMEM(x, a); return; }
  Q w = e >= 0 ? qpowmod(a, e, m, 2) : qpowmod(qinv(a, m, 2), -e, m, 2);
  NOTHROW(r = x.exp((int)e)); SAMEM(r, w); SAMEM(x, a);
}
static Q rm(int md) { Q m; do m = rq(md); while (dg(m) < 1); return m; }
int main(int c, char **v) {
  H::add("every modulus of degree 1..4 with every pair", 1, [] { for (int k = 2; k < 32; k++) { Q m = qnum(k, 2); int n = 1 << dg(m); for (int i = 0; i < n + 3; i++) { for (int j = 0; j < n; j++) pair(qnum(i, 2), qnum(j, 2), m); for (int e = -9; e <= 17; e++) ex(qnum(i, 2), e, m); } } }, nullptr);
  H::add("word-boundary degrees", 1, [] { for (int d : {31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193}) { Q m(d + 1), o(d, 1), t(d); m[d] = 1; m[0] = 1; m[1] = 1; t[d - 1] = 1; pair(o, t, m); pair(t, o, m); pair(o, o, m); pair(Q{0, 1}, o, m); ex(o, 3, m); ex(t, -1, m); ex(Q{0, 1}, 1 << 20, m); Q n(d + 1); n[d] = 1; pair(o, t, n); pair(t, o, n); } }, nullptr);
  H::add("extreme exponents", 0.5, [] { for (long long e : {2147483647LL, 2147483646LL, 1073741824LL, -2147483647LL, -2147483648LL, -1073741824LL}) for (Q m : {Q{1, 1, 1}, Q{1, 1, 0, 1}, Q{0, 0, 1}, Q{1, 1}, Q{0, 1}}) for (int i = 0; i < 8; i++) ex(qnum(i, 2), e, m); }, nullptr);
  H::add("random", 3, nullptr, [] { Q m = rm(rnd() % 3 ? 70 : 260); Q a = rq(dg(m) + 70), b = rq(dg(m) + 5); if (rnd() % 4 == 0) { Q f = rm(3); a = qmul(a, f, 2); b = qmul(b, f, 2); m = qmul(m, f, 2); } pair(a, b, m); if (dg(m) < 80) ex(b, rnd() % 3 ? rin(-100, 100) : rin(-2147483647, 2147483647), m); });
  return H::run(c, v);
}
