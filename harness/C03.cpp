#include "h.h"
#include "spffl/intmath/is_prime.h"
namespace spffl::intmath {
__attribute__((weak)) bool isprime_trial(int n);
__attribute__((weak)) bool isprime_table(int n);
} // namespace spffl::intmath
using namespace spffl::intmath;
static const ll M = 0x7fffffff;
static ull mulm(ull a, ull b, ull m) { return (ull)((u128)a * b % m); }
static bool oracle(ull n) { // deterministic Miller-Rabin (2, 3, 5, 7 decide all n < 3.2e9)
  if (n < 2) return false;
  for (ull p : {2, 3, 5, 7}) if (n % p == 0) return n == p;
  ull d = n - 1; int s = 0;
  while (!(d & 1)) { d >>= 1; s++; }
  for (ull a : {2, 3, 5, 7}) {
    ull x = 1, b = a, e = d;
    while (e) { if (e & 1) x = mulm(x, b, n); b = mulm(b, b, n); e >>= 1; }
    if (x == 1 || x == n - 1) continue;
    bool ok = false;
    for (int i = 1; i < s && !ok; i++) { x = mulm(x, x, n); ok = x == n - 1; }
    if (!ok) return false;
  }
  return true;
}
static bool both = true;
static void one(ll n) {
  if (n < 0 || n > M) return;
  bool w = oracle(n);
  CASE("is_prime(%lld)", n);
  CHECK(is_prime((int)n) == w, "expected %d", w);
  if (isprime_table) { CASE("isprime_table(%lld)", n); CHECK(isprime_table((int)n) == w, "expected %d", w); }
  if (isprime_trial && both) { CASE("isprime_trial(%lld)", n); CHECK(isprime_trial((int)n) == w, "expected %d", w); }
}
static std::vector<int> pr;
int main(int argc, char **argv) {
  H::add("below-2^20", 0, [] { int N = H::thorough ? 1 << 23 : 1 << 20; for (ll n = 0; n < N; n++) one(n); for (int n = 2; n < 65536; n++) if (oracle(n)) pr.push_back(n); }, nullptr);
  H::add("nth-prime", 0, [] {
    for (int i = 1; i <= (int)pr.size(); i++) { CASE("nth_prime(%d)", i); int r = 0; NOTHROW(r = nth_prime(i)); CHECK(r == pr[i - 1], "got %d, expected %d", r, pr[i - 1]); }
    for (ll i : {0ll, -1ll, -2ll, -M, -M - 1, (ll)pr.size() + 1, (ll)pr.size() + 2, 65536ll, 100000ll, M}) { CASE("nth_prime(%lld)", i); CHECK(H::throws([&] { nth_prime((int)i); })); } }, nullptr);
  H::add("squares-and-products", 0, [] {
    for (size_t i = 0; i < pr.size(); i++) { both = i % 8 == 0; one((ll)pr[i] * pr[i]); for (size_t j = i + 1; j < i + 3 && j < pr.size(); j++) one((ll)pr[i] * pr[j]); one((ll)pr[i] * pr[i] + 2); one((ll)pr[i] * pr[i] - 2); }
    both = true;
    for (ll n = M - 3000; n <= M; n++) one(n); }, nullptr);
  H::add("random", 1, nullptr, [] { one(rint(0, M)); });
  H::add("semiprimes", 1, nullptr, [] { ll p = pr[rnd() % pr.size()], q = pr[rnd() % pr.size()]; one(p * q); });
  H::add("negative", 0, [] { // |n| decides; only absence of faults and agreement is required
    for (ll n = -3000; n < 0; n++) { CASE("is_prime(%lld)", n); if (is_prime((int)n)) CHECK(oracle(-n)); } }, nullptr);
  return H::run(argc, argv);
}
