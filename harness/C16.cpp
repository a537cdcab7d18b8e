#include "h.h"
#include "spffl/bits/bit_vector_t.h"
using namespace spffl::bits;
typedef std::vector<int> V;
static std::string str(const V &v) { std::string s; for (int b : v) s += char('0' + b); return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
static V rv(int n) { V v(n); int mode = rnd() % 6; for (int &b : v) b = mode == 0 ? 0 : mode == 1 ? 1 : mode == 2 ? (rnd() % 40 == 0) : mode == 3 ? (rnd() % 40 != 0) : rnd() & 1;
  if (mode == 4 && n) { for (int &b : v) b = 0; v[n - 1 - rnd() % (n < 70 ? n : 70)] = 1; } return v; }
static bit_vector_t mk(const V &v) { bit_vector_t x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x.set((int)i, v[i]); return x; }
static void same(bit_vector_t &x, const V &v, const char *w, int line) {
  if (x.get_num_elements() != (int)v.size()) H::FAIL("%s: length %d, expected %d (line %d)", w, x.get_num_elements(), (int)v.size(), line);
  for (size_t i = 0; i < v.size(); i++) if (x.get_int((int)i) != v[i] || x.get((int)i).get_residue() != v[i] || x.get_bit((int)i) != v[i]) H::FAIL("%s: element %d is %d, expected %d (line %d)", w, (int)i, x.get_int((int)i), v[i], line);
  bool z = true; for (int b : v) z = z && !b;
  if (x.is_zero() != z) H::FAIL("%s: is_zero returned %d (line %d)", w, x.is_zero(), line);
  if (!v.empty()) { bit_vector_t e = mk(v); if (!(x == e) || !(e == x) || x != e) H::FAIL("%s: not equal to the vector with the same elements (line %d)", w, line); }
  int lead = -1; for (size_t i = 0; i < v.size() && lead < 0; i++) if (v[i]) lead = (int)i;
  int pos = -7; bool f = x.find_leader_pos(pos);
  if (f != (lead >= 0) || (f && pos != lead)) H::FAIL("%s: leader search gave %d/%d, expected %d (line %d)", w, f, pos, lead, line);
  bool all1 = true; for (int b : v) all1 = all1 && b;
  if ((x == bit_t(0)) != z || (x == bit_t(1)) != all1 || (x != bit_t(1)) == all1) H::FAIL("%s: comparison with a scalar (line %d)", w, line);
}
#define SAME(x, v) same(x, v, #x, __LINE__)
static void pair(int n) {
  V a = rv(n), b = rv(n);
  if (rnd() % 3 == 0) { b = a; if (rnd() & 1) b[rnd() % n] ^= 1; }
  CASE("n=%d a=%s b=%s", n, str(a).c_str(), str(b).c_str());
  bit_vector_t x = mk(a), y = mk(b);
  SAME(x, a); SAME(y, b);
  V s(n), p(n); int d = 0; for (int i = 0; i < n; i++) { s[i] = a[i] ^ b[i]; p[i] = a[i] & b[i]; d ^= p[i]; }
  { bit_vector_t t = x + y; SAME(t, s); t = x - y; SAME(t, s); t = x * y; SAME(t, p); t = x * bit_t(1); SAME(t, a); t = x * bit_t(0); SAME(t, V(n)); }
  CHECK(x.dot(y).get_residue() == d); CHECK(y.dot(x).get_residue() == d);
  CHECK((x == y) == (a == b)); CHECK((x != y) == (a != b)); CHECK(x == x); CHECK(!(x != x));
  { bit_vector_t t = x; t += y; SAME(t, s); t = x; t -= y; SAME(t, s); t = x; t *= y; SAME(t, p); t = x; t *= bit_t(1); SAME(t, a); t *= bit_t(0); SAME(t, V(n)); t = x; t.accum_row(y); SAME(t, s); SAME(y, b); SAME(x, a);
    t = x; t += t; SAME(t, V(n)); t = x; t *= t; SAME(t, a); t = t; SAME(t, a); }
  { bit_vector_t t(x), u(y); t.ptrswap(u); SAME(t, b); SAME(u, a); t = bit_t(1); SAME(t, V(n, 1)); SAME(u, a); t = bit_t(0); SAME(t, V(n)); u.set(0, 1 - a[0]); SAME(x, a); }
  { int i = rnd() % n; bit_vector_t t = x; V e = a; t.toggle_element(i); e[i] ^= 1; SAME(t, e); t.set(i, bit_t(1)); e[i] = 1; SAME(t, e); t.set(i, bit_t(0)); e[i] = 0; SAME(t, e); t.set(i, 3); e[i] = 1; SAME(t, e); t.set(i, -2); e[i] = 0; SAME(t, e); t.set(i, 1); e[i] = 1; SAME(t, e); SAME(x, a); }
  for (int i : {-1, n, n + 1, n + 63, -n, -64, 0x7fffffff, (int)0x80000000}) {
    bit_vector_t t = x;
    CHECK(H::throws([&] { t.get(i); }), "get(%d)", i); CHECK(H::throws([&] { t.get_int(i); }), "get_int(%d)", i); CHECK(H::throws([&] { t.set(i, 1); }), "set(%d)", i); CHECK(H::throws([&] { t.set(i, bit_t(0)); }), "set(%d)", i); CHECK(H::throws([&] { t.toggle_element(i); }), "toggle(%d)", i);
    SAME(t, a);
  }
}
static void ctors(int n) {
  CASE("constructors n=%d", n);
  bit_vector_t z(n), o(bit_t(1), n), q(bit_t(0), n), r(1, n), s(0, n);
  SAME(z, V(n)); SAME(o, V(n, 1)); SAME(q, V(n)); SAME(r, V(n, 1)); SAME(s, V(n));
}
static void assign(int n, int m) {
  V a = rv(n), b = rv(m);
  CASE("assignment and mismatched lengths n=%d a=%s m=%d b=%s", n, str(a).c_str(), m, str(b).c_str());
  { bit_vector_t x = mk(a), y = mk(b), e; x = y; SAME(x, b); e = y; SAME(e, b); y.toggle_element(0); SAME(x, b); SAME(e, b); x = mk(a); SAME(x, a); bit_vector_t w(x); SAME(w, a); x.toggle_element(n - 1); SAME(w, a);
    bit_vector_t f; f = bit_t(1); SAME(f, V(1, 1)); bit_vector_t g; g = bit_t(0); SAME(g, V(1)); }
  if (n != m) {
    bit_vector_t x = mk(a), y = mk(b);
    CHECK(H::throws([&] { x + y; })); CHECK(H::throws([&] { x - y; })); CHECK(H::throws([&] { x * y; })); CHECK(H::throws([&] { x.dot(y); })); CHECK(H::throws([&] { x += y; })); CHECK(H::throws([&] { x -= y; })); CHECK(H::throws([&] { x *= y; })); CHECK(H::throws([&] { x.accum_row(y); })); CHECK(H::throws([&] { x.ptrswap(y); }));
    CHECK(!(x == y)); CHECK(x != y); SAME(x, a); SAME(y, b);
  }
}
static int rlen() { static const int L[] = {1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256, 320, 1000}; return rnd() % 2 ? L[rnd() % 14] : (int)rin(1, 200); }
int main(int c, char **v) {
  H::add("every length 1..200", 1, [] { for (int n = 1; n <= 200; n++) { ctors(n); pair(n); assign(n, n); assign(n, (n * 7) % 131 + 1); }
    for (int n : {0, -1, -64, (int)0x80000000}) { CASE("rejected length %d", n); CHECK(H::throws([&] { bit_vector_t x(n); })); CHECK(H::throws([&] { bit_vector_t x(bit_t(1), n); })); CHECK(H::throws([&] { bit_vector_t x(1, n); })); } }, nullptr);
  H::add("pairs", 3, nullptr, [] { pair(rlen()); });
  H::add("assignment", 1, nullptr, [] { assign(rlen(), rlen()); ctors(rlen()); });
  H::add("long", 1, [] { for (int n : {4096, 65536, 1000003}) { ctors(n); pair(n); } }, nullptr);
  return H::run(c, v);
}
