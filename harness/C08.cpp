#include "f2.h"
using namespace H;
static void division(const Q &a, const Q &b) {
  CASE("a=%s b=%s", bs(a).c_str(), bs(b).c_str());
  f2_poly_t x = mkp(a), y = mkp(b), q(1, 1), r(1, 0, 1);
  if (b.empty()) {
    CHECK(throws([&] { x.quot_and_rem(y, q, r); })); CHECK(throws([&] { x / y; })); CHECK(throws([&] { x % y; })); CHECK(throws([&] { f2_poly_t t = x; t /= y; })); CHECK(throws([&] { f2_poly_t t = x; t %= y; }));
    SAMEP(x, a);
  } else {
    Q eq, er; qdm(a, b, 2, eq, er);
    NOTHROW(x.quot_and_rem(y, q, r)); SAMEP(q, eq); SAMEP(r, er); SAMEP(x / y, eq); SAMEP(x % y, er);
    f2_poly_t t = x; t /= y; SAMEP(t, eq); t = x; t %= y; SAMEP(t, er); t = y; t /= t; SAMEP(t, Q{1}); t = y; t %= t; SAMEP(t, Q());
    f2_poly_t back = q * y + r; SAMEP(back, a);
  }
  SAMEP(x, a); SAMEP(y, b);
}
static void gcds(const Q &a, const Q &b) {
  CASE("gcd a=%s b=%s", bs(a).c_str(), bs(b).c_str());
  f2_poly_t x = mkp(a), y = mkp(b), g, d, m(1, 1), n(1, 0, 1); Q e = qgcd(a, b, 2);
  NOTHROW(g = x.gcd(y)); SAMEP(g, e); NOTHROW(g = y.gcd(x)); SAMEP(g, e);
  NOTHROW(d = x.ext_gcd(y, m, n)); SAMEP(d, e);
  f2_poly_t s = m * x + n * y; SAMEP(s, e);
  // the coefficients are ordinary polynomials
  Q qm, qn; for (int i = 0; i <= m.find_degree(); i++) qm.push_back(m.bit_at(i)); for (int i = 0; i <= n.find_degree(); i++) qn.push_back(n.bit_at(i)); SAMEP(m, tr(qm)); SAMEP(n, tr(qn));
  CHECK(qadd(qmul(tr(qm), a, 2), qmul(tr(qn), b, 2), 2) == e);
  SAMEP(x, a); SAMEP(y, b);
}
int main(int c, char **v) {
  H::add("all pairs of degree < 6", 1, [] { for (int i = 0; i < 64; i++) for (int j = 0; j < 64; j++) { division(qnum(i, 2), qnum(j, 2)); gcds(qnum(i, 2), qnum(j, 2)); } }, nullptr);
  H::add("powers of x around word boundaries", 1, [] { for (int d : {0, 1, 62, 63, 64, 65, 127, 128, 129, 192}) for (int e : {0, 1, 62, 63, 64, 65, 127, 128}) { Q m(d + 1), n(e + 1); m[d] = 1; n[e] = 1; division(m, n); Q o(d + 1, 1); division(o, n); division(m, Q(e + 1, 1)); n[0] = 1; division(m, n); division(o, n); if (d < 130) gcds(o, n); } }, nullptr);
  H::add("random division", 3, nullptr, [] { Q a = rq(330), b = rq(330); division(a, b); if (!b.empty()) { Q q = rq(130); division(qmul(q, b, 2), b); } });
  H::add("random gcd", 3, nullptr, [] { Q a = rq(140), b = rq(140); gcds(a, b); Q g = rq(70); gcds(qmul(a, g, 2), qmul(b, g, 2)); });
  return H::run(c, v);
}
