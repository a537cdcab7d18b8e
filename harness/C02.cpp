#include "h.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
using namespace spffl::intmath;
static const ll M = 0x7fffffff;
static void pw(int b, int e) {
  i128 x = 1;
  if (b == 0) x = e ? 0 : 1;
  else if (b == 1) x = 1;
  else if (b == -1) x = e & 1 ? -1 : 1;
  else for (int i = 0; i < e; i++) { x *= b; if (x > M || x < -M) return; }
  CASE("int_power(%d, %d)", b, e);
  int r = int_power(b, e);
  CHECK(r == (ll)x, "got %d, exact power is %lld", r, (ll)x);
}
static void sq(ll n) {
  if (n < 0 || n > M) return;
  CASE("int_sqrt_floor(%lld)", n);
  ll r = int_sqrt_floor((int)n);
  CHECK(r >= 0 && r * r <= n && (r + 1) * (r + 1) > n, "got %lld", r);
  CASE("int_sqrt_ceil(%lld)", n);
  ll c = int_sqrt_ceil((int)n);
  CHECK(c >= 0 && c * c >= n && (c == 0 || (c - 1) * (c - 1) < n), "got %lld", c);
}
static int phi(int n) {
  int r = n, m = n;
  for (int p = 2; (ll)p * p <= m; p++) if (m % p == 0) { r -= r / p; while (m % p == 0) m /= p; }
  if (m > 1) r -= r / m;
  return r;
}
static void tot(int n) {
  CASE("int_totient(%d)", n);
  int r = int_totient(n);
  CHECK(r == phi(n), "got %d, expected %d", r, phi(n));
}
int main(int argc, char **argv) {
  H::add("power-exhaustive", 0, [] {
    for (int b = -1300; b <= 1300; b++) for (int e = 0; e <= 40; e++) pw(b, e);
    for (ll b : {46340, 46341, 65535, 65536, 2147483647, 1290, 1291, 215, 216, 73, 74}) for (int e = 0; e < 5; e++) { pw((int)b, e); pw((int)-b, e); }
    for (int e : {63, 64, 1000, 1 << 20, (int)M, (int)M - 1}) for (int b = -1; b <= 1; b++) pw(b, e); }, nullptr);
  H::add("power", 1, nullptr, [] { int e = (int)rin(0, 31); ll b = e <= 1 ? rint(-M, M) : rin(0, (ll)__builtin_pow(2147483647.0, 1.0 / e) + 1); pw((int)(rnd() & 1 ? b : -b), e); });
  H::add("sqrt-squares", 0, [] {
    for (ll r = 0; r <= 46341; r++) for (int d = -2; d <= 2; d++) sq(r * r + d);
    for (ll n = 0; n < 20000; n++) sq(n);
    for (int k = 0; k <= 31; k++) for (int d = -3; d <= 3; d++) sq((1ll << k) + d);
    for (ll n = M - 2000; n <= M; n++) sq(n);
    for (ll n : {-1ll, -2ll, -M, -M - 1}) { CASE("int_sqrt of %lld", n); CHECK(H::throws([&] { int_sqrt_floor((int)n); })); CHECK(H::throws([&] { int_sqrt_ceil((int)n); })); } }, nullptr);
  H::add("sqrt", 2, [] { if (H::thorough) for (ll n = 0; n <= M; n += 13) sq(n); }, [] { sq(rint(0, M)); });
  H::add("totient-small", 0, [] { for (int n = 2; n <= (H::thorough ? 6000 : 1500); n++) tot(n); }, nullptr);
  H::add("totient", 1, nullptr, [] { tot((int)rin(2, rnd() % 16 ? 3000 : 60000)); });
  return H::run(argc, argv);
}
