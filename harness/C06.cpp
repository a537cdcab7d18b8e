#include "h.h"
#include "spffl/intmath/intrat_t.h"
using namespace spffl::intmath;
static const ll IM = 0x7fffffff;
static i128 g128(i128 a, i128 b) { while (b) { i128 t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
static bool fit(i128 x) { return x >= -IM && x <= IM; }
struct Q { i128 n, d; };
static Q red(i128 n, i128 d) { if (d < 0) { n = -n; d = -d; } i128 g = g128(n, d); return {n / g, d / g}; }
#define IS(x, q) do { Q q_ = (q); intrat_t x_ = (x); CHECK(x_.get_numerator() == (ll)q_.n && x_.get_denominator() == (ll)q_.d, "got %d/%d, expected %lld/%lld", x_.get_numerator(), x_.get_denominator(), (ll)q_.n, (ll)q_.d); } while (0)
static void one(ll a, ll b) {
  CASE("%lld/%lld", a, b);
  if (b == 0) { CHECK(H::throws([&] { intrat_t((int)a, 0); })); return; }
  intrat_t x((int)a, (int)b); Q p = red(a, b);
  IS(x, p); IS(-x, (Q{-p.n, p.d})); IS(intrat_t(x), p); IS(intrat_t((int)a), (Q{a, 1}));
  { intrat_t z; IS(z, (Q{0, 1})); z = x; IS(z, p); z = (int)b; IS(z, (Q{b, 1})); z = z; IS(z, (Q{b, 1})); }
  for (ll k : {(ll)p.n, 0ll, 1ll, a, b}) { CHECK((x == (int)k) == (p.n == k && p.d == 1)); CHECK((x != (int)k) == !(p.n == k && p.d == 1)); }
  if (p.n == 0) { CHECK(H::throws([&] { intrat_t y(3, 4); y / x; })); CHECK(H::throws([&] { intrat_t y(3, 4); y % x; })); CHECK(H::throws([&] { intrat_t y(3, 4); y /= x; })); CHECK(H::throws([&] { intrat_t y(x); y /= y; })); }
}
static void two(ll a, ll b, ll c, ll d) {
  if (!b || !d) return;
  CASE("%lld/%lld and %lld/%lld", a, b, c, d);
  intrat_t x((int)a, (int)b), y((int)c, (int)d); Q p = red(a, b), q = red(c, d);
  CHECK((x == y) == (p.n == q.n && p.d == q.d)); CHECK((x != y) == !(p.n == q.n && p.d == q.d));
  i128 u = p.n * q.d, v = p.d * q.n, w = p.d * q.d;
  if (fit(u) && fit(v)) {
    CHECK((x < y) == (u < v)); CHECK((x <= y) == (u <= v)); CHECK((x > y) == (u > v)); CHECK((x >= y) == (u >= v));
    if (fit(w) && fit(u + v)) { IS(x + y, red(u + v, w)); intrat_t z(x); z += y; IS(z, red(u + v, w)); }
    if (fit(w) && fit(u - v)) { IS(x - y, red(u - v, w)); intrat_t z(x); z -= y; IS(z, red(u - v, w)); }
    if (q.n) { IS(x / y, red(u, v)); intrat_t z(x); z /= y; IS(z, red(u, v)); IS(x, p); }
  }
  if (fit(w) && fit(p.n * q.n)) { IS(x * y, red(p.n * q.n, w)); intrat_t z(x); z *= y; IS(z, red(p.n * q.n, w)); IS(x, p); IS(y, q); }
  if (q.n && fit(q.n * q.d) && fit(q.d * q.d)) { IS(x % y, (Q{0, 1})); intrat_t z(x); z %= y; IS(z, (Q{0, 1})); }
  if (fit(p.d * p.d) && fit(p.n * p.d * 2)) { intrat_t z(x); z += z; IS(z, red(2 * p.n, p.d)); z = x; z -= z; IS(z, (Q{0, 1})); if (p.n) { z = x; z /= z; IS(z, (Q{1, 1})); } if (fit(p.n * p.n)) { z = x; z *= z; IS(z, red(p.n * p.n, p.d * p.d)); } }
}
static void power(ll a, ll b, ll e) {
  if (!b) return;
  Q p = red(a, b); i128 n = p.n, d = p.d;
  CASE("(%lld/%lld)^%lld", a, b, e);
  intrat_t x((int)a, (int)b);
  if (e <= 0 && n == 0) { CHECK(H::throws([&] { x.exp((int)e); })); return; }
  if (e == -IM - 1) { CHECK(H::throws([&] { x.exp((int)e); })); return; }
  i128 N = 1, D = 1;
  if (n == 0 || n == 1 || n == -1) N = n == -1 ? (e & 1 ? -1 : 1) : (e ? n : 1); else for (ll i = 0; i < e; i++) { N *= n; if (!fit(N)) return; }
  if (d != 1) for (ll i = 0; i < e; i++) { D *= d; if (!fit(D)) return; }
  IS(x.exp((int)e), (Q{N, D}));
}
static void powern(ll a, ll b, ll e) { // negative exponents: keep the original sign of e
  if (!b) return;
  Q p = red(a, b); if (p.n == 0) return power(a, b, e);
  if (e >= 0 || e == -IM - 1) return power(a, b, e);
  Q r = red(p.d, p.n); i128 N = 1, D = 1; ll k = -e;
  if (r.n == 1 || r.n == -1) N = r.n < 0 && (k & 1) ? -1 : 1; else for (ll i = 0; i < k; i++) { N *= r.n; if (!fit(N)) return; }
  if (r.d != 1) for (ll i = 0; i < k; i++) { D *= r.d; if (!fit(D)) return; }
  CASE("(%lld/%lld)^%lld", a, b, e);
  intrat_t x((int)a, (int)b);
  IS(x.exp((int)e), (Q{N, D}));
}
int main(int argc, char **argv) {
  H::add("small-exhaustive", 0, [] {
    int L = H::thorough ? 14 : 8;
    for (int a = -L; a <= L; a++) for (int b = -L; b <= L; b++) { one(a, b); for (int c = -L; c <= L; c++) for (int d = -L; d <= L; d++) two(a, b, c, d); for (int e = -12; e <= 33; e++) powern(a, b, e); }
    for (ll a : {0ll, 1ll, -1ll, 46340ll, -46340ll, 46341ll, 65535ll, 65536ll, IM, -IM}) for (ll b : {1ll, -1ll, 46340ll, 46341ll, IM, -IM, IM - 1}) { one(a, b); for (int e = -3; e <= 3; e++) powern(a, b, e); for (ll c : {0ll, 1ll, -1ll, 46340ll, IM}) for (ll d : {1ll, 2ll, 46340ll, -IM}) { two(a, b, c, d); two(c, d, a, b); } }
    for (ll e : {IM, -IM, -IM - 1, IM - 1}) for (int s : {-1, 0, 1}) powern(s, 1, e);
  }, nullptr);
  H::add("pairs", 3, nullptr, [] {
    ll k = 1ll << rin(1, 31);
    auto r = [&](ll l) { ll v = rint(-l, l); return v < -IM ? -IM : v > IM ? IM : v; };
    ll a = r(k), b = r(k), c = r(IM / k + 2), d = r(IM / k + 2);
    if (rnd() & 1) { ll g = rin(1, 50); if (fit((i128)a * g) && fit((i128)b * g)) { a *= g; b *= g; } }
    one(a, b); two(a, b, c, d); two(a, d, c, b); two(c, d, a, b); });
  H::add("powers", 1, nullptr, [] { ll e = rin(-31, 31); ll m = e ? (ll)__builtin_pow(2147483647.0, 1.0 / (e < 0 ? -e : e)) + 1 : IM; if (m > IM) m = IM; powern(rin(-m, m), rin(-m, m), e); });
  return H::run(argc, argv);
}
