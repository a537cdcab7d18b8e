#include "fp.h"
using namespace H;
static ll_ gcdll(ll_ a, ll_ b) { while (b) { ll_ t = a % b; a = b; b = t; } return a; }
static void unary(const Q &a, int p) {
  CASE("p=%d a=%s", p, qs(a).c_str());
  fp_poly_t x = mkf(a, p);
  SAMEF(x, a); SAMEF(-x, qsub(Q(), a, p)); SAMEF(-(-x), a);
  { fp_poly_t y(x), z; z = x; SAMEF(y, a); SAMEF(z, a); y = *&y; SAMEF(y, a); y = mkf(Q{0, 0, 0, 1}, p); z = y; SAMEF(z, (Q{0, 0, 0, 1})); SAMEF(x, a); for (int v : {-p, -1, 0, 1, 5, p - 1}) SAMEF(x.prime_subfield_element(v), tr(Q{md(v, p)})); }
  SAMEF(x.deriv(), qder(a, p));
  for (ll_ c : {(ll_)0, (ll_)1, (ll_)2, (ll_)p - 1, (ll_)rin(0, p - 1)}) { c = md(c, p); intmod_t ic((int)c, p); intmod_t r = x.eval(ic); CHECK(r.get_modulus() == p); CHECK(r.get_residue() == qev(a, c, p));
    SAMEF(x + ic, qadd(a, tr(Q{c}), p)); SAMEF(x - ic, qsub(a, tr(Q{c}), p)); SAMEF(x * ic, tr(qsc(a, c, p)));
    fp_poly_t y = x; y += ic; SAMEF(y, qadd(a, tr(Q{c}), p)); y -= ic; SAMEF(y, a); y *= ic; SAMEF(y, tr(qsc(a, c, p)));
    if (p > 300 && rnd() % 20) continue; if (p > 70000) continue;
    if (gcdll(c, p) == 1) { Q q = tr(qsc(a, inv(c, p), p)); SAMEF(x / ic, q); y = x; y /= ic; SAMEF(y, q); } else { CHECK(throws([&] { x / ic; })); }
  }
  { fp_poly_t y = x; y += y; SAMEF(y, tr(qadd(a, a, p))); y = x; y -= y; SAMEF(y, Q()); y = x; y *= y; SAMEF(y, qmul(a, a, p)); }
  { fp_poly_t y = x; Q b = a; y.increment(); size_t i = 0; while (i < b.size() && b[i] == p - 1) b[i++] = 0; if (i == b.size()) b.push_back(1); else b[i]++; SAMEF(y, b); CHECK(x < y); CHECK(y > x); CHECK(x <= y); CHECK(!(x >= y)); CHECK(x != y); }
  { fp_poly_t y = x; y.promote(); Q b = a; if (!b.empty()) b.insert(b.begin(), 0); SAMEF(y, b); y = x; ll_ c = rin(0, p - 1); y.promote_and_add(intmod_t((int)c, p)); b = a; b.insert(b.begin(), c); SAMEF(y, tr(b)); }
  { bool sq = true; for (size_t i = 0; i < a.size(); i++) if (a[i] && i % p) sq = false; fp_poly_t r = mkf(Q{1, 1}, p); bool g = x.pth_root(r); CHECK(g == sq); if (g) { Q h; for (size_t i = 0; i < a.size(); i += p) h.push_back(a[i]); SAMEF(r, tr(h)); } else SAMEF(r, (Q{1, 1})); }
  for (int e = 0; e <= 5; e++) { if (a.empty() && e == 0) { CHECK(throws([&] { x.exp(0); })); CHECK(throws([&] { x.exp(-1); })); continue; } if (dg(a) > 12 && e > 3) continue; fp_poly_t y; NOTHROW(y = x.exp(e)); SAMEF(y, qpow(a, e, p)); }
  if (dg(a) > 0) CHECK(throws([&] { x.exp(-1); }));
  if (dg(a) == 0 && (p > 70000 || (p > 300 && rnd() % 8))) return;
  if (dg(a) == 0 && gcdll(a[0], p) == 1) { ll_ iv = inv(a[0], p); fp_poly_t y; NOTHROW(y = x.exp(-3)); SAMEF(y, (Q{iv * iv % p * iv % p})); NOTHROW(y = x.exp(37)); SAMEF(y, qpow(a, 37, p)); } else if (dg(a) == 0) CHECK(throws([&] { x.exp(-1); }));
  CHECK(throws([&] { x.get_coeff(-1); })); { fp_poly_t y = x; CHECK(throws([&] { y.set_coeff(-1, intmod_t(1, p)); })); SAMEF(y, a); }
  SAMEF(x, a);
}
static void coeffs(const Q &a, int pos, int p) {
  for (ll_ c : {(ll_)0, (ll_)1, (ll_)p - 1}) { CASE("p=%d a=%s pos=%d c=%lld", p, qs(a).c_str(), pos, (long long)c);
    fp_poly_t x = mkf(a, p), y = x; Q b = a; if ((int)b.size() <= pos) b.resize(pos + 1); b[pos] = c; b = tr(b); y.set_coeff(pos, intmod_t((int)c, p)); SAMEF(y, b); y.set_coeff(pos + 1, intmod_t(1, p)); if ((int)b.size() <= pos + 1) b.resize(pos + 2); b[pos + 1] = 1; SAMEF(y, b); y.set_coeff(pos + 1, intmod_t(0, p)); b[pos + 1] = 0; b = tr(b); SAMEF(y, b); SAMEF(x, a); }
}
static void pair(const Q &a, const Q &b, int p) {
  CASE("p=%d a=%s b=%s", p, qs(a).c_str(), qs(b).c_str());
  fp_poly_t x = mkf(a, p), y = mkf(b, p); Q s = qadd(a, b, p), d = qsub(a, b, p), m = tr(qmul(a, b, p));
  SAMEF(x + y, s); SAMEF(y + x, s); SAMEF(x - y, d); SAMEF(y - x, qsub(b, a, p)); SAMEF(x * y, m); SAMEF(y * x, m);
  { fp_poly_t t = x; t += y; SAMEF(t, s); t -= y; SAMEF(t, a); t *= y; SAMEF(t, m); t += x; SAMEF(t, qadd(m, a, p)); t = x; t = y; SAMEF(t, b); t.set_coeff(7, intmod_t(1, p)); SAMEF(y, b); }
  int c = qcmp(a.empty() ? Q{0} : a, b.empty() ? Q{0} : b);
  CHECK((x < y) == (c < 0)); CHECK((x > y) == (c > 0)); CHECK((x <= y) == (c <= 0)); CHECK((x >= y) == (c >= 0)); CHECK((x == y) == (c == 0)); CHECK((x != y) == (c != 0)); CHECK((y < x) == (c > 0)); CHECK((y == x) == (c == 0));
  SAMEF(x, a); SAMEF(y, b);
}
static void mixed(int p, int q) {
  CASE("moduli %d and %d", p, q); for (const Q &a : {Q{1}, Q{0, 1}, Q{1, 1, 1}}) for (const Q &b : {Q{1}, Q{1, 1}, Q{0, 0, 1}}) { fp_poly_t x = mkf(a, p), y = mkf(b, q);
    CHECK(throws([&] { x + y; })); CHECK(throws([&] { x - y; })); CHECK(throws([&] { x * y; })); CHECK(throws([&] { x + intmod_t(1, q); })); CHECK(throws([&] { x - intmod_t(1, q); })); CHECK(throws([&] { x *= intmod_t(1, q); })); CHECK(throws([&] { x /= intmod_t(1, q); })); CHECK(throws([&] { x += y; })); CHECK(throws([&] { x *= y; })); if (a.size() > 1) CHECK(throws([&] { x.eval(intmod_t(1, q)); })); SAMEF(x, a); }
}
static void base(int b, int p) { CASE("base %d digits of %d", p, b); SAMEF(fp_poly_t::from_base_rep(b, p), qnum(b, p)); }
int main(int c, char **v) {
  H::add("constructors", 0.3, [] { for (int p : {2, 3, 5, 6, 9, 101, 2147483647}) for (int i = -4; i <= 4; i++) { CASE("ctor %d mod %d", i, p); SAMEF(fp_poly_t(i, p), tr(Q{md(i, p)})); SAMEF(fp_poly_t(intmod_t(i, p)), tr(Q{md(i, p)})); for (int j = -3; j <= 3; j++) { SAMEF(fp_poly_t(i, j, p), tr(Q{md(j, p), md(i, p)})); SAMEF(fp_poly_t(intmod_t(i, p), intmod_t(j, p)), tr(Q{md(j, p), md(i, p)})); for (int k = -3; k <= 3; k++) { SAMEF(fp_poly_t(i, j, k, p), tr(Q{md(k, p), md(j, p), md(i, p)})); SAMEF(fp_poly_t(intmod_t(i, p), intmod_t(j, p), intmod_t(k, p)), tr(Q{md(k, p), md(j, p), md(i, p)})); } } }
      for (int m : {0, -1, -7}) { CASE("bad modulus %d", m); CHECK(throws([&] { fp_poly_t x(1, m); })); CHECK(throws([&] { fp_poly_t x(1, 0, m); })); CHECK(throws([&] { fp_poly_t x(1, 0, 0, m); })); }
      for (int p : {2, 3, 5, 7, 10, 101, 65537, 2147483647}) { for (int b = 0; b < 300; b++) base(b, p); base(2147483647, p); base(2147483646, p); long long w = 1; while (w < 2147483647) { base((int)w, p); base((int)w - 1, p); base((int)w + 1, p); w *= p; } } for (int p : {2, 3, 5, 6}) for (int q : {4, 7, 11}) mixed(p, q); }, [] { base((int)rin(0, 2147483647), rm_()); });
  H::add("all small polynomials in pairs", 1, [] { for (int p : {2, 3, 5}) { int n = p == 2 ? 32 : p == 3 ? 81 : 125; for (int i = 0; i < n; i++) { unary(qnum(i, p), p); for (int k = 0; k < 5; k++) coeffs(qnum(i, p), k, p); for (int j = 0; j < n; j += (p == 2 ? 1 : 1 + (int)(rnd() % 3))) pair(qnum(i, p), qnum(j, p), p); } } }, nullptr);
  H::add("random pairs", 2, nullptr, [] { int p = rm_(); Q a = rf(rnd() % 4 ? 9 : 70, p), b = rnd() % 5 == 0 ? a : rf(rnd() % 4 ? 9 : 70, p); if (rnd() % 4 == 0 && !b.empty()) { size_t i = rnd() % b.size(); b[i] = md(b[i] + (rnd() % 2 ? 1 : p - 1), p); b = tr(b); } if (rnd() % 6 == 0) b = qsub(Q(), a, p); pair(a, b, p); });
  H::add("random single", 2, nullptr, [] { int p = rm_(); Q a = rf(rnd() % 4 ? 9 : 60, p); if (rnd() % 5 == 0 && p < 20) { Q h = a; h.resize(std::min<size_t>(h.size(), 6)); Q b; for (size_t i = 0; i < h.size(); i++) { b.resize(i * p); b.push_back(h[i]); } a = tr(b); if (rnd() % 3 == 0 && a.size() > 2) { a[rnd() % (a.size() - 1)] = 1; } } unary(a, p); coeffs(a, (int)rin(0, 40), p); });
  return H::run(c, v);
}
