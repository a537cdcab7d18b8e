#include "f2.h"
using namespace H;
static void unary(const Q &a) {
  CASE("a=%s", bs(a).c_str());
  f2_poly_t x = mkp(a);
  SAMEP(x, a); SAMEP(-x, a);
  { f2_poly_t y(x), z; z = x; SAMEP(y, a); SAMEP(z, a); y = y; SAMEP(y, a); z = 3; SAMEP(z, Q{1}); z = 0; SAMEP(z, Q()); z = -1; SAMEP(z, Q{1}); SAMEP(x.prime_subfield_element(-3), Q{1}); SAMEP(x.prime_subfield_element(4), Q()); }
  SAMEP(x.deriv(), qder(a, 2));
  CHECK(x.eval(0) == cf(a, 0)); CHECK(x.eval(1) == qev(a, 1, 2)); CHECK(x.eval(-1) == qev(a, 1, 2)); CHECK(x.eval(-2) == cf(a, 0)); CHECK(x.eval(bit_t(1)).get_residue() == qev(a, 1, 2)); CHECK(x.eval(bit_t(0)).get_residue() == cf(a, 0));
  SAMEP(x * 1, a); SAMEP(x * 0, Q()); SAMEP(x * -3, a); { f2_poly_t y = x; y *= 1; SAMEP(y, a); y *= 2; SAMEP(y, Q()); }
  { f2_poly_t y = x; y += y; SAMEP(y, Q()); y = x; y -= y; SAMEP(y, Q()); y = x; y *= y; Q s = qmul(a, a, 2); SAMEP(y, s); f2_poly_t r(1); CHECK(y.square_root(r)); SAMEP(r, a); }
  { bool sq = true; for (size_t i = 1; i < a.size(); i += 2) sq = sq && !a[i]; f2_poly_t r(0, 1, 1); bool g = x.square_root(r); CHECK(g == sq); if (g) { Q h; for (size_t i = 0; i < a.size(); i += 2) h.push_back(a[i]); SAMEP(r, tr(h)); } }
  { f2_poly_t y = x; Q b = a; y.increment(); size_t i = 0; while (i < b.size() && b[i]) b[i++] = 0; if (i == b.size()) b.push_back(1); else b[i] = 1; SAMEP(y, b); CHECK(x < y); CHECK(y > x); }
  for (int e = 0; e <= 6; e++) { if (a.empty() && e == 0) { CHECK(throws([&] { x.exp(0); })); continue; } if (dg(a) > 70 && e > 4) continue; f2_poly_t y; NOTHROW(y = x.exp(e)); SAMEP(y, qpow(a, e, 2)); }
  if (a == Q{1}) { SAMEP(x.exp(-3), a); } else CHECK(throws([&] { x.exp(-1); }));
  CHECK(x.bit_at(-1) == 0 && x.bit_at(-64) == 0); CHECK(throws([&] { f2_poly_t y = x; y.set_bit(-1); })); 
  { f2_poly_t y = x; CHECK(throws([&] { y.set_coeff(-1, bit_t(1)); })); CHECK(throws([&] { y.set_coeff(-64, bit_t(0)); })); CHECK(throws([&] { y.set_bit(-65); })); SAMEP(y, a); }
  SAMEP(x, a);
}
static void coeffs(const Q &a, int pos) {
  CASE("a=%s pos=%d", bs(a).c_str(), pos);
  f2_poly_t x = mkp(a);
  Q b = a, c = a; if ((int)b.size() <= pos) b.resize(pos + 1); b[pos] = 1; if (pos < (int)c.size()) c[pos] = 0; c = tr(c);
  { f2_poly_t y = x; y.set_bit(pos); SAMEP(y, b); y = x; y.set_coeff(pos, bit_t(1)); SAMEP(y, b); y = x; y.set_coeff(pos, bit_t(0)); SAMEP(y, c); y.set_coeff(pos, bit_t(1)); SAMEP(y, b); y.set_coeff(pos, bit_t(0)); SAMEP(y, c); }
  SAMEP(x, a);
}
static void pair(const Q &a, const Q &b) {
  CASE("a=%s b=%s", bs(a).c_str(), bs(b).c_str());
  f2_poly_t x = mkp(a), y = mkp(b); Q s = qadd(a, b, 2), p = qmul(a, b, 2);
  SAMEP(x + y, s); SAMEP(x - y, s); SAMEP(y + x, s); SAMEP(x * y, p); SAMEP(y * x, p);
  { f2_poly_t t = x; t += y; SAMEP(t, s); t -= y; SAMEP(t, a); t *= y; SAMEP(t, p); t += x; SAMEP(t, qadd(p, a, 2)); t = x + y; t = t * y; SAMEP(t, qmul(s, b, 2)); t = x; t = y; SAMEP(t, b); t.set_bit(70); SAMEP(y, b); }
  int c = qcmp(a, b);
  CHECK((x < y) == (c < 0)); CHECK((x > y) == (c > 0)); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0)); CHECK((x == y) == (c == 0)); CHECK((x != y) == (c != 0));
  CHECK((y < x) == (c > 0)); CHECK((y == x) == (c == 0));
  SAMEP(x, a); SAMEP(y, b);
}
static void base(uint64_t w) { CASE("word %llx", (ull)w); SAMEP(f2_poly_t::from_base_rep(w), qnum(w, 2)); }
int main(int c, char **v) {
  H::add("constructors", 0.2, [] { for (int i = -4; i <= 4; i++) { CASE("ctor %d", i); f2_poly_t x(i); SAMEP(x, tr(Q{md(i, 2)})); for (int j = -3; j <= 3; j++) { CASE("ctor %d %d", i, j); SAMEP(f2_poly_t(i, j), tr(Q{md(j, 2), md(i, 2)})); for (int k = -3; k <= 3; k++) { CASE("ctor %d %d %d", i, j, k); SAMEP(f2_poly_t(i, j, k), tr(Q{md(k, 2), md(j, 2), md(i, 2)})); } } }
      CASE("default"); SAMEP(f2_poly_t(), Q()); for (int i = 0; i < 64; i++) { base(1ull << i); base((1ull << i) - 1); base(~(1ull << i)); } }, [] { base(rnd() >> (rnd() % 64)); });
  H::add("all polynomials of degree < 5 in pairs", 1, [] { for (int i = 0; i < 32; i++) { unary(qnum(i, 2)); for (int j = 0; j < 32; j++) pair(qnum(i, 2), qnum(j, 2)); for (int k = 0; k < 10; k++) coeffs(qnum(i, 2), k); } }, nullptr);
  H::add("all-ones and powers of x around word boundaries", 1, [] { for (int d : {0, 1, 30, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193}) { Q o(d + 1, 1), m(d + 1); m[d] = 1; unary(o); unary(m); for (int p : {0, 30, 31, 32, 62, 63, 64, 65, 127, 128, 191, 192, 200}) { coeffs(o, p); coeffs(m, p); } for (int e : {0, 1, 31, 63, 64, 65, 127, 128}) { Q n(e + 1); n[e] = 1; pair(m, n); pair(o, n); pair(o, Q(e + 1, 1)); } } }, nullptr);
  H::add("random pairs", 3, nullptr, [] { Q a = rq(330), b = rnd() % 6 == 0 ? a : rq(330); if (rnd() % 6 == 0 && !b.empty()) { b[rnd() % b.size()] ^= 1; b = tr(b); } pair(a, b); });
  H::add("random single", 2, nullptr, [] { Q a = rq(200); unary(a); coeffs(a, (int)rin(0, 260)); });
  return H::run(c, v);
}
