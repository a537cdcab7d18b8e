#include "h.h"
#include "spffl/containers/tvector.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/polynomials/f2_poly_t.h"
#include <typeinfo>
#include <vector>
using namespace H;
using spffl::intmath::intmod_t;
using spffl::intmath::intrat_t;
using spffl::polynomials::f2_poly_t;
// value maker: unit = usable as a divisor
template <class T> struct mk;
template <> struct mk<int> { static int v(bool) { return (int)rin(-1000, 1000); } static int fix(int k) { return k; } };
template <int M> struct MI {};
template <int M> struct mk<MI<M>> { static intmod_t v(bool u) { return intmod_t((int)rin(u ? 1 : 0, M - 1), M); } static intmod_t fix(int k) { return intmod_t(k, M); } };
template <> struct mk<intrat_t> { static intrat_t v(bool u) { int n = (int)rin(-9, 9); if (u && !n) n = 1; return intrat_t(n, (int)rin(1, 4)); } static intrat_t fix(int k) { return intrat_t(k); } };
template <> struct mk<f2_poly_t> { static f2_poly_t v(bool) { f2_poly_t a = f2_poly_t::from_base_rep(rnd() & 0xfff); return rnd() % 4 ? a : a * f2_poly_t::from_base_rep(rnd()); } static f2_poly_t fix(int k) { return f2_poly_t::from_base_rep((uint64_t)k); } };
template <class K> using el = decltype(mk<K>::v(false));
template <class K> using arr = std::vector<el<K>>;
template <class K> static arr<K> ra(int n, bool u = false) { arr<K> a; for (int i = 0; i < n; i++) a.push_back(mk<K>::v(u)); return a; }
template <class T> static tvector<T> tv(const std::vector<T> &a) { tvector<T> r((int)a.size()); for (size_t i = 0; i < a.size(); i++) r[(int)i] = a[i]; return r; }
template <class T> static void same(const tvector<T> &v, const std::vector<T> &a, const char *w) {
  if (v.get_num_elements() != (int)a.size()) H::FAIL("%s: length %d, expected %zu", w, v.get_num_elements(), a.size());
  for (size_t i = 0; i < a.size(); i++) if (!(v[(int)i] == a[i])) H::FAIL("%s: element %zu is wrong", w, i);
}
template <class T> static void bounds(const tvector<T> &v, const char *w) {
  int n = v.get_num_elements();
  for (int i : {-1, n, n + 1, -n, 2147483647, (int)0x80000000}) if (i < 0 || i >= n) if (!throws([&] { (void)v[i]; })) H::FAIL("%s: index %d accepted for a vector of length %d", w, i, n);
}
// ---- assignment and copies of all length pairs
template <class K> static void assigns(int n, int m) {
  typedef el<K> T; CASE("%s: vector of length %d assigned to one of length %d (0: default constructed)", typeid(K).name(), n, m);
  arr<K> a = ra<K>(n), b = ra<K>(m);
  tvector<T> va = tv(a), vb; if (m) { tvector<T> t = tv(b); vb = t; } else CHECK(vb.get_num_elements() == 0);
  if (m) same(vb, b, "before");
  tvector<T> &r = (vb = va); CHECK(&r == &vb); same(vb, a, "assigned"); same(va, a, "source"); bounds(vb, "assigned");
  tvector<T> c(va); same(c, a, "copy constructed");
  arr<K> d = a; int k = (int)(rnd() % n); d[k] = mk<K>::fix(1); vb[k] = mk<K>::fix(1); same(vb, d, "assigned and changed"); same(va, a, "source after changing the target");
  same(c, a, "copy after changing the target"); va[n - 1] = mk<K>::fix(0); same(c, a, "copy after changing the source"); same(vb, d, "target after changing the source");
  vb = vb; same(vb, d, "self assigned");
}
template <class K> static void trims(int n, int t, int m) {
  typedef el<K> T; CASE("%s: vector of length %d trimmed to %d, then assigned one of length %d", typeid(K).name(), n, t, m);
  arr<K> a = ra<K>(n), b = ra<K>(m), at(a.begin(), a.begin() + t); tvector<T> va = tv(a), vb = tv(b);
  for (int bad : {0, -1, n + 1, 2147483647}) CHECK(throws([&] { va.trim_num_elements(bad); })); same(va, a, "after refused trims");
  va.trim_num_elements(t); same(va, at, "trimmed"); bounds(va, "trimmed"); if (t < n) { CHECK(throws([&] { va.trim_num_elements(n); })); CHECK(throws([&] { va + tv(a); })); CHECK(!(va == tv(a))); }
  tvector<T> c(va); same(c, at, "copy of a trimmed vector"); tvector<T> d = tv(b); d = va; same(d, at, "assigned a trimmed vector");
  va = vb; same(va, b, "trimmed vector assigned"); va[m - 1] = mk<K>::fix(1); same(vb, b, "source"); b[m - 1] = mk<K>::fix(1); same(va, b, "trimmed vector assigned, changed");
}
// ---- operations
template <class K> static void ops(int n) {
  typedef el<K> T; CASE("%s: operations at length %d", typeid(K).name(), n);
  arr<K> a = ra<K>(n), b = ra<K>(n), r = a; T s = mk<K>::v(false), t = mk<K>::v(false); const tvector<T> A = tv(a), B = tv(b); tvector<T> X;
  auto each = [&](auto f) { for (int i = 0; i < n; i++) r[i] = f(i); };
  each([&](int i) { return a[i] + b[i]; }); same(A + B, r, "+"); X = A; same(X += B, r, "result of +="); same(X, r, "+=");
  each([&](int i) { return a[i] - b[i]; }); same(A - B, r, "-"); X = A; same(X -= B, r, "result of -="); same(X, r, "-=");
  each([&](int i) { return a[i] * b[i]; }); same(A * B, r, "* componentwise"); X = A; same(X *= B, r, "result of *= componentwise"); same(X, r, "*= componentwise");
  each([&](int i) { return a[i] * s; }); same(A * s, r, "* scalar"); X = A; same(X *= s, r, "result of *= scalar"); same(X, r, "*= scalar"); X = A; X.mult_by(s); same(X, r, "mult_by");
  each([&](int i) { return -a[i]; }); same(-A, r, "negation");
  each([&](int i) { return a[i] + a[i]; }); X = A; X += X; same(X, r, "+= self"); each([&](int i) { return a[i] - a[i]; }); X = A; X -= X; same(X, r, "-= self"); each([&](int i) { return a[i] * a[i]; }); X = A; X *= X; same(X, r, "*= self");
  { tvector<T> Bm(B); X = A; X.accum_row_mul(s, t, Bm); each([&](int i) { return a[i] * s - b[i] * t; }); same(X, r, "accum_row_mul"); same(Bm, b, "accum_row_mul operand");
    int k = (int)(rnd() % n); X = A; each([&](int i) { return a[i] * b[k] - b[i] * a[k]; }); X.accum_row_mul(Bm[k], X[k], Bm); same(X, r, "accum_row_mul by its own elements"); }
  { T d = a[0] * b[0]; for (int i = 1; i < n; i++) d = d + a[i] * b[i]; X = A; CHECK(X.dot(B) == d); same(X, a, "dot operand"); T q = a[0] * a[0]; for (int i = 1; i < n; i++) q = q + a[i] * a[i]; CHECK(X.dot(X) == q); }
  same(A, a, "left operand"); same(B, b, "right operand");
  // comparison
  X = A; CHECK(X == A && !(X != A)); for (int k = 0; k < n; k++) { T e = X[k], f = mk<K>::v(false); if (f == e) continue; X[k] = f; CHECK(!(X == A) && X != A && !(A == X)); X[k] = e; } CHECK(X == A);
  { tvector<T> U(s, n); same(U, arr<K>((size_t)n, s), "filled"); CHECK(U == s && !(U != s)); int k = (int)(rnd() % n); T f = mk<K>::v(false); if (!(f == s)) { U[k] = f; CHECK(!(U == s) && U != s); } X = A; X = s; same(X, arr<K>((size_t)n, s), "assigned a scalar"); tvector<T> Y; Y = s; same(Y, arr<K>(1, s), "default vector assigned a scalar"); }
  // leader
  { T z = mk<K>::fix(0), o = mk<K>::fix(1); tvector<T> Z(z, n); int p = -7; CHECK(!Z.find_leader_pos(z, p) && p == -7); for (int k = n - 1; k >= 0; k--) { Z[k] = rnd() % 2 ? o : mk<K>::v(true); if (Z[k] == z) Z[k] = o; p = -7; CHECK(Z.find_leader_pos(z, p) && p == k); } Z[0] = o; if (n > 1) { Z[0] = z; CHECK(Z.find_leader_pos(z, p) && p == 1); CHECK(Z.find_leader_pos(o, p) && p == 0); } }
  // swap
  { tvector<T> P(A), Q(B); P.ptrswap(Q); same(P, b, "swapped"); same(Q, a, "swapped"); P[0] = mk<K>::fix(1); same(Q, a, "swapped, other changed"); P = A; same(P, a, "assigned after swap"); P.ptrswap(P); same(P, a, "swapped with itself"); }
  bounds(A, "operand");
  // mismatched lengths
  for (int m : {n - 1, n + 1, 2 * n, 1}) if (m > 0 && m != n) { arr<K> c = ra<K>(m); tvector<T> C = tv(c); X = A;
    CHECK(throws([&] { A + C; })); CHECK(throws([&] { A - C; })); CHECK(throws([&] { A * C; })); CHECK(throws([&] { X += C; })); CHECK(throws([&] { X -= C; })); CHECK(throws([&] { X *= C; })); CHECK(throws([&] { X.dot(C); })); CHECK(throws([&] { X.accum_row_mul(s, t, C); })); CHECK(throws([&] { X.ptrswap(C); })); CHECK(throws([&] { X.check_equal_lengths(C); }));
    CHECK(!(A == C) && A != C); same(X, a, "after rejected operations"); same(C, c, "after rejected operations"); }
}
template <class K> static void fieldops(int n) {
  typedef el<K> T; CASE("%s: division and powers at length %d", typeid(K).name(), n);
  arr<K> a = ra<K>(n, true), b = ra<K>(n, true), r = a; tvector<T> A = tv(a), B = tv(b); T s = mk<K>::v(true);
  for (int i = 0; i < n; i++) r[i] = a[i] / b[i]; same(A / B, r, "/ componentwise");
  for (int i = 0; i < n; i++) r[i] = a[i] / s; tvector<T> X(A); same(X /= s, r, "result of /="); same(X, r, "/=");
  int e = (int)rin(-3, 5); for (int i = 0; i < n; i++) r[i] = a[i].exp(e); same(A.exp(e), r, "powers"); CHECK(throws([&] { A / tv(ra<K>(n + 1, true)); }));
}
template <class K> static void vecmat(int n, int m) {
  typedef el<K> T; CASE("%s: vector of length %d times %dx%d matrix", typeid(K).name(), n, n, m);
  arr<K> a = ra<K>(n); tvector<T> A = tv(a); tmatrix<T> M(n, m); std::vector<arr<K>> mm; for (int i = 0; i < n; i++) { mm.push_back(ra<K>(m)); for (int j = 0; j < m; j++) M[i][j] = mm[i][j]; }
  arr<K> r; for (int j = 0; j < m; j++) { T d = a[0] * mm[0][j]; for (int i = 1; i < n; i++) d = d + a[i] * mm[i][j]; r.push_back(d); }
  same(A * M, r, "vector times matrix"); tmatrix<T> W(n + 1, m); CHECK(throws([&] { A * W; }));
}
int main(int c, char **v) {
  H::add("assignment over every pair of lengths", 1, [] { for (int n = 1; n <= 12; n++) for (int m = 0; m <= 12; m++) { assigns<int>(n, m); assigns<MI<7>>(n, m); assigns<f2_poly_t>(n, m); assigns<intrat_t>(n, m); } for (int t = 1; t <= 6; t++) for (int n = t; n <= 7; n++) for (int m = 1; m <= 9; m++) { trims<int>(n, t, m); trims<MI<13>>(n, t, m); trims<f2_poly_t>(n, t, m); } for (int b : {0, -1, -2147483647}) { CHECK(throws([&] { tvector<int> x(b); })); CHECK(throws([&] { tvector<int> x(3, b); })); } }, [] { int n = (int)rin(1, 70), m = (int)rin(0, 70); assigns<int>(n, m); assigns<MI<101>>(n, m); assigns<f2_poly_t>(n, m); int t = (int)rin(1, n); trims<int>(n, t, m + 1); trims<intrat_t>(n, t, m + 1); });
  H::add("element-wise operations", 3, [] { for (int n = 1; n <= 20; n++) { ops<int>(n); ops<MI<2>>(n); ops<MI<7>>(n); ops<MI<12>>(n); ops<intrat_t>(n > 6 ? 6 : n); ops<f2_poly_t>(n); fieldops<MI<7>>(n); fieldops<MI<101>>(n); fieldops<intrat_t>(n > 8 ? 8 : n); } }, [] { int n = (int)rin(1, 40); switch (rnd() % 6) { case 0: ops<int>(n); break; case 1: ops<MI<101>>(n); fieldops<MI<101>>(n); break; case 2: ops<MI<9>>(n); break; case 3: ops<f2_poly_t>(n % 20 + 1); break; case 4: ops<intrat_t>(n % 6 + 1); break; default: ops<MI<46337>>(n); } });
  H::add("vector times matrix", 1, [] { for (int n = 1; n <= 6; n++) for (int m = 1; m <= 6; m++) { vecmat<int>(n, m); vecmat<MI<7>>(n, m); vecmat<f2_poly_t>(n, m); } }, [] { vecmat<MI<101>>((int)rin(1, 20), (int)rin(1, 20)); });
  H::add("moduli", 1, [] { CASE("vectors with unset or different moduli"); arr<MI<7>> a = ra<MI<7>>(3); arr<MI<5>> b = ra<MI<5>>(3); auto A = tv(a), X = A; auto B = tv(b); CHECK(throws([&] { A + B; })); CHECK(throws([&] { A - B; })); CHECK(throws([&] { A * B; })); CHECK(throws([&] { X.dot(B); })); tvector<intmod_t> U(3); CHECK(throws([&] { A + U; })); CHECK(throws([&] { -U; })); CHECK(throws([&] { X *= intmod_t(2, 5); })); }, nullptr);
  return H::run(c, v);
}
