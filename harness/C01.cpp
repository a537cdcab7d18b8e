#include "h.h"
#include "spffl/intmath/int_gcd.h"
using namespace spffl::intmath;
static ull ugcd(ull a, ull b) { // binary gcd, independent of the code under test
  if (!a) return b;
  if (!b) return a;
  int s = __builtin_ctzll(a | b);
  a >>= __builtin_ctzll(a);
  while (b) { b >>= __builtin_ctzll(b); if (a > b) std::swap(a, b); b -= a; }
  return a << s;
}
static ull uabs(ll x) { return x < 0 ? -(ull)x : (ull)x; }
static void one(int a, int b) {
  ull g = ugcd(uabs(a), uabs(b));
  CASE("int_gcd(%d, %d)", a, b);
  int r = int_gcd(a, b);
  CHECK(uabs(r) == g, "got %d, gcd is %llu", r, g);
  if (a && b) CHECK(r > 0, "got %d: the gcd of nonzero integers is positive", r);
  CASE("gcd(%d, %d)", a, b);
  int r1 = gcd(a, b);
  CHECK(uabs(r1) == g, "got %d, gcd is %llu", r1, g);
  CASE("int_ext_gcd(%d, %d, m, n)", a, b);
  int m = 123, n = 456;
  int d = int_ext_gcd(a, b, m, n);
  CHECK(uabs(d) == g, "got %d, gcd is %llu", d, g);
  CHECK((i128)m * a + (i128)n * b == d, "m=%d n=%d do not combine to %d", m, n, d);
  i128 l = g ? (i128)uabs(a) / g * uabs(b) : 0;
  if (l <= 0x7fffffff) {
    CASE("int_lcm(%d, %d)", a, b);
    int x = int_lcm(a, b);
    CHECK((i128)uabs(x) == l, "got %d, lcm is %lld", x, (ll)l);
  }
}
int main(int argc, char **argv) {
  const ll M = 0x7fffffff;
  H::add("small-exhaustive", 0, [] { int N = H::thorough ? 400 : 120; for (int a = -N; a <= N; a++) for (int b = -N; b <= N; b++) one(a, b); }, nullptr);
  H::add("extremes", 0, [=] {
    std::vector<ll> v = {0, 1, 2, 3, 46340, 46341, 65535, 65536, M, M - 1, M - 2, 1 << 30, (1 << 30) - 1, 1836311903, 1134903170, 1431655765, 715827882, 2147483629, 510510, 223092870};
    for (ll a : v) for (ll b : v) for (int s = 0; s < 4; s++) one((int)(s & 1 ? -a : a), (int)(s & 2 ? -b : b));
    ll f0 = 0, f1 = 1; while (f1 <= M) { for (int s = 0; s < 4; s++) { one((int)(s & 1 ? -f0 : f0), (int)(s & 2 ? -f1 : f1)); one((int)(s & 1 ? -f1 : f1), (int)(s & 2 ? -f0 : f0)); } ll t = f0 + f1; f0 = f1; f1 = t; }
  }, nullptr);
  H::add("random", 1, nullptr, [=] { one((int)rint(-M, M), (int)rint(-M, M)); });
  H::add("common-factor", 1, nullptr, [=] { ll g = rin(1, 60000); ll k = M / g; one((int)(g * rint(-k, k)), (int)(g * rint(-k, k))); });
  H::add("lcm-representable", 1, nullptr, [=] { ll g = rin(1, 50000), x = rin(1, 46340), y = rin(1, 46340); if (g * x <= M && g * y <= M) one((int)(rnd() & 1 ? -g * x : g * x), (int)(rnd() & 1 ? -g * y : g * y)); });
  return H::run(argc, argv);
}
