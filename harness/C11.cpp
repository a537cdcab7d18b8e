#include "fp.h"
using namespace H;
static ll_ gcdll(ll_ a, ll_ b) { while (b) { ll_ t = a % b; a = b; b = t; } return a; }
static Q getq(const fp_poly_t &x) { Q a; for (int i = 0; i <= x.find_degree(); i++) a.push_back(x.get_coeff(i).get_residue()); return tr(a); }
static void division(const Q &a, const Q &b, int p) {
  CASE("p=%d a=%s b=%s", p, qs(a).c_str(), qs(b).c_str());
  fp_poly_t x = mkf(a, p), y = mkf(b, p), q(3, 1, 5), r = mkf(Q{1, 0, 1}, p);
  SAMEF(x, a);
  if (b.empty() || (!a.empty() && a.size() >= b.size() && gcdll(b.back(), p) != 1)) {
    CHECK(throws([&] { x.quot_and_rem(y, q, r); })); CHECK(throws([&] { x / y; })); CHECK(throws([&] { x % y; })); CHECK(throws([&] { fp_poly_t t = x; t /= y; })); CHECK(throws([&] { fp_poly_t t = x; t %= y; }));
  } else {
    Q eq, er; if (!a.empty() && a.size() >= b.size()) qdm(a, b, p, eq, er); else er = a;
    NOTHROW(x.quot_and_rem(y, q, r)); SAMEF(q, eq); SAMEF(r, er);
    NOTHROW(SAMEF(x / y, eq)); NOTHROW(SAMEF(x % y, er));
    if (p < 3000) { fp_poly_t t = x; NOTHROW(t /= y); SAMEF(t, eq); t = x; NOTHROW(t %= y); SAMEF(t, er); if (gcdll(b.back(), p) == 1) { t = y; t /= t; SAMEF(t, Q{1}); t = y; t %= t; SAMEF(t, Q()); } }
    fp_poly_t back = q * y + r; SAMEF(back, a); CHECK(r == 0 || r.find_degree() < y.find_degree());
  }
  SAMEF(x, a); SAMEF(y, b);
}
static void gcds(const Q &a, const Q &b, int p) {
  CASE("gcd p=%d a=%s b=%s", p, qs(a).c_str(), qs(b).c_str());
  fp_poly_t x = mkf(a, p), y = mkf(b, p), g, d, m = mkf(Q{1, 1}, p), n(2, 1, 3); Q e = qgcd(a, b, p);
  NOTHROW(g = x.gcd(y)); Q gg = getq(g); SAMEF(g, gg); CHECK(qmonic(gg, p) == e);
  if (p < 3000) { NOTHROW(g = y.gcd(x)); gg = getq(g); SAMEF(g, gg); CHECK(qmonic(gg, p) == e); }
  NOTHROW(d = x.ext_gcd(y, m, n)); Q dd = getq(d), mm = getq(m), nn = getq(n); SAMEF(d, dd); SAMEF(m, mm); SAMEF(n, nn); CHECK(qmonic(dd, p) == e);
  SAMEF(m * x + n * y, dd); CHECK(qadd(qmul(mm, a, p), qmul(nn, b, p), p) == dd);
  SAMEF(x, a); SAMEF(y, b);
}
static int pr(bool prime) { return prime ? PR[rnd() % 8] : rnd() % 3 ? PR[rnd() % 8] : MO[rnd() % 7]; }
int main(int c, char **v) {
  H::add("all pairs of small polynomials", 1, [] { for (int p : {2, 3, 5}) { int n = p == 2 ? 32 : p == 3 ? 81 : 125; for (int i = 0; i < n; i++) for (int j = 0; j < n; j += (p == 2 ? 1 : 1 + (int)(rnd() % 3))) { division(qnum(i, p), qnum(j, p), p); gcds(qnum(i, p), qnum(j, p), p); } }
      for (int p : {4, 6, 9}) for (int i = 0; i < 200; i++) for (int j = 0; j < 60; j++) division(qnum(rnd() % 5000, p), qnum(rnd() % 700, p), p); }, nullptr);
  H::add("moduli around 2^16", 0.5, nullptr, [] { static const int LP[] = {46337, 46349, 65536, 65537}; int p = LP[rnd() / 64 % 4]; for (int k = 0; k < 30; k++) { Q a = rf(20, p), b = rf(10, p); if (b.empty()) b = Q{1}; if (rnd() % 3) b.back() = 1; division(a, b, p); if (p != 65536) gcds(a, rf(12, p), p); } });
  H::add("random division", 3, nullptr, [] { int p = pr(false); Q a = rf(rnd() % 4 ? 9 : 60, p), b = rf(rnd() % 4 ? 9 : 60, p); division(a, b, p); if (!b.empty()) { Q q = rf(9, p); division(tr(qmul(q, b, p)), b, p); Q r = rf((int)b.size() - 2, p); division(qadd(tr(qmul(q, b, p)), r, p), b, p); } });
  H::add("random gcd", 3, nullptr, [] { int p = pr(true); Q a = rf(rnd() % 4 ? 9 : 30, p), b = rf(rnd() % 4 ? 9 : 30, p); gcds(a, b, p); Q g = rf(6, p); gcds(tr(qmul(a, g, p)), tr(qmul(b, g, p)), p); if (rnd() % 3 == 0) gcds(tr(qmul(a, b, p)), a, p); });
  return H::run(c, v);
}
