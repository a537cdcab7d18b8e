#include "h.h"
#include "spffl/intmath/intmod_t.h"
using namespace spffl::intmath;
static const ll IM = 0x7fffffff;
static ll md(i128 a, ll m) { ll r = (ll)(a % m); return r < 0 ? r + m : r; }
static ll gcdll(ll a, ll b) { while (b) { ll t = a % b; a = b; b = t; } return a < 0 ? -a : a; }
static ll powm(ll a, ull e, ll m) { i128 r = 1 % m, x = md(a, m); while (e) { if (e & 1) r = r * x % m; x = x * x % m; e >>= 1; } return (ll)r; }
static ll invm(ll a, ll m) { // extended Euclid, caller guarantees gcd 1
  ll r0 = m, r1 = md(a, m), t0 = 0, t1 = 1;
  while (r1) { ll q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = t0 - q * t1; t0 = t1; t1 = t; }
  return md(t0, m);
}
#define IS(x, v) CHECK((x).get_residue() == (v) && (x).get_modulus() == m, "got residue %d modulus %d, expected residue %lld modulus %lld", (x).get_residue(), (x).get_modulus(), (ll)(v), (ll)m)
static void ring(ll m, ll a, ll b, ll k) {
  CASE("m=%lld a=%lld b=%lld k=%lld", m, a, b, k);
  intmod_t x((int)a, (int)m), y((int)b, (int)m);
  ll p = md(a, m), q = md(b, m);
  IS(x, p); IS(y, q);
  IS(x + y, md(p + q, m)); IS(x - y, md(p - q, m)); IS(x * y, md((i128)p * q, m)); IS(-x, md(-p, m));
  IS(x + (int)k, md(p + k, m)); IS(x - (int)k, md(p - k, m)); IS(x * (int)k, md((i128)p * k, m));
  IS(x.prime_subfield_element((int)k), md(k, m));
  { intmod_t z = x; z += y; IS(z, md(p + q, m)); z = x; z -= y; IS(z, md(p - q, m)); z = x; z *= y; IS(z, md((i128)p * q, m));
    z = x; z += z; IS(z, md(2 * p, m)); z = x; z -= z; IS(z, 0); z = x; z *= z; IS(z, md((i128)p * p, m)); intmod_t w(z); IS(w, md((i128)p * p, m)); z = z; IS(z, md((i128)p * p, m)); }
  CHECK((x == y) == (p == q)); CHECK((x != y) == (p != q)); CHECK((x < y) == (p < q)); CHECK((x <= y) == (p <= q)); CHECK((x > y) == (p > q)); CHECK((x >= y) == (p >= q));
  CHECK((x == (int)k) == (p == k)); CHECK((x != (int)k) == (p != k));
}
static void inv(ll m, ll a, ll b) {
  CASE("m=%lld a=%lld b=%lld (reciprocal, quotient)", m, a, b);
  intmod_t x((int)a, (int)m), y((int)b, (int)m), r((int)7, (int)1000003);
  ll p = md(a, m), q = md(b, m);
  bool u = gcdll(q, m) == 1;
  bool ok = y.recip(r);
  CHECK(ok == u, "recip returned %d", ok);
  if (u) {
    ll e = invm(q, m);
    IS(r, e);
    IS(x / y, md((i128)p * e, m)); IS(x % y, 0);
    intmod_t z = x; z /= y; IS(z, md((i128)p * e, m)); z = x; z %= y; IS(z, 0);
    if (q) { z = y; z /= z; IS(z, 1); }
  } else {
    CHECK(H::throws([&] { x / y; }), "division by a non-unit did not throw"); CHECK(H::throws([&] { x % y; }));
    intmod_t z = x; CHECK(H::throws([&] { z /= y; }));
  }
}
static void power(ll m, ll a, ll e) {
  CASE("m=%lld a=%lld exp(%lld)", m, a, e);
  intmod_t x((int)a, (int)m);
  ll p = md(a, m);
  if (e == 0) { if (p == 0) CHECK(H::throws([&] { x.exp(0); })); else IS(x.exp(0), 1); return; }
  if (e > 0) { IS(x.exp((int)e), powm(p, e, m)); return; }
  if (e == -IM - 1 || gcdll(p, m) != 1) { CHECK(H::throws([&] { x.exp((int)e); })); return; }
  IS(x.exp((int)e), powm(invm(p, m), -e, m));
}
static void mixed(ll m, ll n, ll a, ll b) {
  CASE("m=%lld n=%lld a=%lld b=%lld mixed moduli", m, n, a, b);
  intmod_t x((int)a, (int)m), y((int)b, (int)n), u;
  intmod_t *ps[2] = {&y, &u};
  for (int i = (m == n); i < 2; i++) {
    intmod_t &v = *ps[i];
    CHECK(H::throws([&] { x + v; })); CHECK(H::throws([&] { x - v; })); CHECK(H::throws([&] { x * v; })); CHECK(H::throws([&] { x / v; })); CHECK(H::throws([&] { x % v; }));
    CHECK(H::throws([&] { v + x; })); CHECK(H::throws([&] { v - x; })); CHECK(H::throws([&] { v * x; })); CHECK(H::throws([&] { v / x; }));
    CHECK(H::throws([&] { (void)(x < v); })); CHECK(H::throws([&] { (void)(x <= v); })); CHECK(H::throws([&] { (void)(x > v); })); CHECK(H::throws([&] { (void)(x >= v); }));
    CHECK(H::throws([&] { intmod_t z(x); z += v; })); CHECK(H::throws([&] { intmod_t z(x); z *= v; }));
    if (i == 0) CHECK(!(x == v) && (x != v));
  }
  CHECK(H::throws([&] { -u; })); CHECK(H::throws([&] { u + 1; })); CHECK(H::throws([&] { u.exp(2); })); CHECK(H::throws([&] { intmod_t r; u.recip(r); }));
  CHECK(H::throws([&] { intmod_t((int)a, 0); })); CHECK(H::throws([&] { intmod_t((int)a, (int)-m); }));
}
int main(int argc, char **argv) {
  H::add("small-exhaustive", 0, [] {
    for (ll m = 2; m <= (H::thorough ? 40 : 14); m++) for (ll a = -2; a <= m + 1; a++) for (ll b = 0; b < m; b++) {
      ring(m, a, b, a - b); inv(m, a, b); }
    for (ll m = 2; m <= 60; m++) for (ll a = 0; a < m; a++) for (ll e = -9; e <= 20; e++) power(m, a, e);
    for (ll m = 2; m <= 400; m++) for (ll a = 0; a < m; a += 1 + m / 50) inv(m, 1, a); // many moduli in a row, cache refreshed
    for (ll m = 2; m < 60; m++) for (ll n = 2; n < 60; n += 7) { inv(m, 1, 1 + (n % m)); inv(n, 1, n - 1); mixed(m, n, 3, 5); }
  }, nullptr);
  H::add("ring", 3, [] {
    for (ll m : {2ll, 3ll, 46337ll, 46341ll, 65536ll, 65537ll, 1ll << 30, (1ll << 30) + 3, IM - 1, IM}) for (ll a : {0ll, 1ll, -1ll, m - 1, m / 2, m / 2 + 1, -IM - 1, IM}) for (ll b : {0ll, 1ll, m - 1, m / 2 + 1, m - 2}) for (ll k : {0ll, 1ll, -1ll, IM, -IM - 1, m}) if (k <= IM) ring(m, a, b, k); },
    [] { ll m = rint(2, IM); if (rnd() & 1) m = rin(2, 300); ring(m, rint(-IM - 1, IM), rnd() & 1 ? m - 1 - rin(0, 3) % m : rint(-IM - 1, IM), rint(-IM - 1, IM)); });
  H::add("power", 2, [] { for (ll m : {46341ll, 65537ll, IM, IM - 1}) for (ll a : {2ll, 3ll, m - 1, m - 2}) for (ll e : {1ll, 2ll, 3ll, 30ll, 31ll, 32ll, IM, IM - 1, 1ll << 30}) power(m, a, e); for (ll a = 0; a < 7; a++) for (ll e : {-IM - 1, -IM, -1ll}) power(7, a, e); },
    [] { bool neg = rnd() % 3 == 0; ll m = neg ? rin(2, 600) : rint(2, IM); power(m, rint(-IM - 1, IM), neg ? -rint(1, IM) : rint(0, IM)); });
  H::add("recip", 3, [] { for (ll m : {4099ll, 46337ll, 46349ll, 65536ll, 65537ll, 99991ll}) for (ll b : {0ll, 1ll, 2ll, m - 1, m - 2, m / 2}) inv(m, 3, b); },
    [] { static int c = 0; ll m = rin(2, ++c % 64 ? 200 : 20000); for (int i = 0; i < 4; i++) inv(m, rint(-IM - 1, IM), rint(-IM - 1, IM)); });
  H::add("mixed", 1, nullptr, [] { mixed(rint(2, IM), rint(2, IM), rint(-IM, IM), rint(-IM, IM)); });
  return H::run(argc, argv);
}
