#include "fp.h"
#include "spffl/polynomials/fp_polymod_t.h"
using namespace H;
using spffl::polynomials::fp_polymod_t;
static fp_polymod_t mk(const Q &a, const Q &m, int p) { return fp_polymod_t(mkf(a, p), mkf(m, p)); }
static void samem(const fp_polymod_t &x, const Q &a, const Q &m, int p, const char *w, int line) {
  samef(x.get_residue(), a, p, w, line); samef(x.get_modulus(), m, p, w, line);
  if (x.get_characteristic() != p) H::FAIL("%s: characteristic (line %d)", w, line);
  fp_polymod_t e = mk(a, m, p);
  if (!(x == e) || x != e || x < e || x > e || !(x <= e) || !(x >= e)) H::FAIL("%s: unequal to the same residue class built from its parts (line %d)", w, line);
  if ((x == 0) != a.empty() || (x != 0) == a.empty() || (x == 1) != (a == Q{1}) || (x != 1) == (a == Q{1})) H::FAIL("%s: comparison with an integer (line %d)", w, line);
}
#define SAMEM(x, a) samem(x, a, m, p, #x, __LINE__)
static Q kc(long long v, int p) { v = md(v, p); return v ? Q{v} : Q(); }
static void pair(const Q &a0, const Q &b0, const Q &m, int p) {
  CASE("a=%s b=%s mod %s over Z/%d", qs(a0).c_str(), qs(b0).c_str(), qs(m).c_str(), p);
  Q a = qmod(a0, m, p), b = qmod(b0, m, p), z;
  fp_polymod_t x = mk(a0, m, p), y = mk(b0, m, p);
  SAMEM(x, a); SAMEM(y, b);
  Q s = qadd(a, b, p), d = qsub(a, b, p), pr = qmod(qmul(a, b, p), m, p), sq = qmod(qmul(a, a, p), m, p);
  SAMEM(x + y, s); SAMEM(x - y, d); SAMEM(x * y, pr); SAMEM(-x, qsub(z, a, p)); SAMEM(-y, qsub(z, b, p));
  { fp_polymod_t t = x; t += y; SAMEM(t, s); t -= y; SAMEM(t, a); t *= y; SAMEM(t, pr); t = x; t += t; SAMEM(t, qsc(a, 2, p)); t = x; t *= t; SAMEM(t, sq); t = x; t -= t; SAMEM(t, z); fp_polymod_t u(x), v; v = u; SAMEM(v, a); v = v; SAMEM(v, a); v = y; SAMEM(v, b); SAMEM(u, a); }
  int c = qcmp(a, b);
  CHECK((x < y) == (c < 0)); CHECK((x > y) == (c > 0)); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0)); CHECK((x == y) == (c == 0)); CHECK((x != y) == (c != 0));
  Q iv = qinv(b, m, p); bool unit = dg(qgcd(b, m, p)) == 0;
  fp_polymod_t r = x; bool g = false; NOTHROW(g = y.recip(r)); CHECK(g == unit);
  if (unit) {
    SAMEM(r, iv); Q q = qmod(qmul(a, iv, p), m, p);
    NOTHROW(r = x / y); SAMEM(r, q); NOTHROW(r = x % y); SAMEM(r, z);
    r = x; NOTHROW(r /= y); SAMEM(r, q); r = x; NOTHROW(r %= y); SAMEM(r, z); r = y; NOTHROW(r /= r); SAMEM(r, qmod(Q{1}, m, p)); r = y; NOTHROW(r %= r); SAMEM(r, z);
    r = y; NOTHROW(g = y.recip(r)); SAMEM(r, iv); NOTHROW(g = r.recip(r)); CHECK(g); SAMEM(r, b);
  } else {
    SAMEM(r, a); CHECK(throws([&] { x / y; })); CHECK(throws([&] { x % y; })); CHECK(throws([&] { r = x; r /= y; })); SAMEM(r, a); CHECK(throws([&] { r %= y; })); SAMEM(r, a);
  }
  SAMEM(x, a); SAMEM(y, b);
}
static void mixed(const Q &a0, const Q &b0, const Q &m, int p, const Q &m2, int p2) {
  CASE("a=%s mod %s over Z/%d with b=%s mod %s over Z/%d", qs(a0).c_str(), qs(m).c_str(), p, qs(b0).c_str(), qs(m2).c_str(), p2);
  if (p == p2 && m == m2) return;
  Q a = qmod(a0, m, p), b = qmod(b0, m2, p2);
  fp_polymod_t x = mk(a0, m, p), z = mk(b0, m2, p2), t = x;
  CHECK(throws([&] { x + z; })); CHECK(throws([&] { x - z; })); CHECK(throws([&] { x * z; })); CHECK(throws([&] { x / z; })); CHECK(throws([&] { x % z; })); CHECK(throws([&] { (void)(x < z); })); CHECK(throws([&] { (void)(x <= z); })); CHECK(throws([&] { (void)(x > z); })); CHECK(throws([&] { (void)(x >= z); }));
  CHECK(throws([&] { t += z; })); SAMEM(t, a); CHECK(throws([&] { t -= z; })); SAMEM(t, a); CHECK(throws([&] { t *= z; })); SAMEM(t, a); CHECK(throws([&] { t /= z; })); SAMEM(t, a); CHECK(throws([&] { t %= z; })); SAMEM(t, a);
  if (p == p2) { CHECK(!(x == z)); CHECK(x != z); } else { CHECK(throws([&] { x *intmod_t(1, p2); })); CHECK(throws([&] { t *= intmod_t(1, p2); })); SAMEM(t, a); }
  samem(z, b, m2, p2, "z", __LINE__);
}
static void scal(const Q &a0, long long k, const Q &m, int p) {
  CASE("a=%s mod %s over Z/%d times %lld", qs(a0).c_str(), qs(m).c_str(), p, k);
  Q a = qmod(a0, m, p), w = qsc(a, k, p); fp_polymod_t x = mk(a0, m, p), t = x, r;
  NOTHROW(r = x * (int)k); SAMEM(r, w); NOTHROW(t *= (int)k); SAMEM(t, w);
  NOTHROW(r = x * intmod_t((int)md(k, p), p)); SAMEM(r, w); t = x; NOTHROW(t *= intmod_t((int)md(k, p), p)); SAMEM(t, w);
  SAMEM(x.prime_subfield_element((int)k), kc(k, p)); SAMEM(fp_polymod_t::prime_subfield_element((int)k, mkf(m, p)), kc(k, p));
  SAMEM(x, a);
}
static void ex(const Q &a0, long long e, const Q &m, int p) {
  CASE("a=%s mod %s over Z/%d exp %lld", qs(a0).c_str(), qs(m).c_str(), p, e);
  Q a = qmod(a0, m, p); fp_polymod_t x = mk(a0, m, p), r; bool unit = dg(qgcd(a, m, p)) == 0;
  if ((e == 0 && a.empty()) || (e < 0 && !unit) || (int)e == INT_MIN) { CHECK(throws([&] { x.exp((int)e); })); SAMEM(x, a); return; }
  Q w = e >= 0 ? qpowmod(a, e, m, p) : qpowmod(qinv(a, m, p), -e, m, p);
  NOTHROW(r = x.exp((int)e)); SAMEM(r, w); SAMEM(x, a);
}
static const int SP[] = {2, 3, 5, 7, 11, 13, 23, 101, 257};
static int sp() { return SP[rnd() % 9]; }
static Q rmod(int mx, int p) { Q m; do m = rf(mx, p); while (dg(m) < 1); return m; }
int main(int c, char **v) {
  H::add("small moduli with every pair", 1, [] {
    struct { int p, lo, hi; } T[] = {{2, 2, 16}, {3, 3, 27}, {5, 5, 30}, {7, 7, 21}};
    for (auto &t : T) for (int k = t.lo; k < t.hi; k++) { Q m = qnum(k, t.p); int n = 1; for (int i = 0; i < dg(m); i++) n *= t.p; if (n > 30) n = 30;
      for (int i = 0; i < n + 2; i++) { for (int j = 0; j < n; j++) if ((i * 7 + j + k) % (t.p == 2 ? 1 : 3) == 0) pair(qnum(i, t.p), qnum(j, t.p), m, t.p); for (int e = -4; e <= 9; e++) ex(qnum(i, t.p), e, m, t.p); for (int q = -3; q <= 4; q++) scal(qnum(i, t.p), q, m, t.p); } } }, nullptr);
  H::add("mixed moduli", 0.5, [] { for (int p : {2, 3, 5}) for (int p2 : {2, 3, 7}) for (Q m : {Q{1, 1}, Q{1, 0, 1}, Q{1, 1, 1}, Q{0, 1}, Q{1, 1, 0, 1}}) for (Q m2 : {Q{1, 1}, Q{1, 0, 1}, Q{1, 1, 1}, Q{0, 1}, Q{1, 1, 0, 1}}) for (Q b : {Q{1}, Q{0, 1}, Q()}) mixed(Q{1}, b, m, p, m2, p2); }, nullptr);
  H::add("extreme exponents and multiples", 0.5, [] { for (long long e : {2147483647LL, 2147483646LL, 1073741824LL, -2147483647LL, -2147483648LL, -1073741824LL}) for (int p : {2, 3, 7, 101}) for (Q m : {Q{1, 1, 1}, Q{1, 1, 0, 1}, Q{0, 0, 1}, Q{1, 1}, Q{0, 1}}) for (int i = 0; i < 8; i++) { ex(qnum(i, p), e, m, p); scal(qnum(i, p), e, m, p); } }, nullptr);
  H::add("random", 3, nullptr, [] { int p = sp(); Q m = rmod(rnd() % 4 ? 6 : 30, p); Q a = rf(dg(m) + 8, p), b = rf(dg(m) + 3, p); if (rnd() % 3 == 0) { Q f = rmod(2, p); a = qmul(a, f, p); b = qmul(b, f, p); m = qmul(m, f, p); } pair(a, b, m, p); });
  H::add("random powers, multiples and mixed moduli", 1, nullptr, [] { int p = sp(); Q m = rmod(8, p); Q a = rf(dg(m) + 4, p); ex(a, rnd() % 3 ? rin(-60, 60) : rin(-2147483647, 2147483647), m, p); scal(a, rnd() % 3 ? rin(-3 * p, 3 * p) : rin(-2147483648LL, 2147483647), m, p);
    Q m2 = m; int p2 = p; switch (rnd() % 4) { case 0: m2[0] = (m2[0] + 1) % p; break; case 1: m2 = qsc(m, rin(1, p - 1), p); break; case 2: p2 = sp(); m2 = rmod(4, p2); break; default: m2 = rmod(8, p); } mixed(a, rf(5, p2), m, p, m2, p2); });
  return H::run(c, v);
}
