#include "mat.h"
#include <fstream>
#include <sstream>
#include "spffl/containers/tmatrix.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/polynomials/f2_polymod_t.h"
#include "spffl/polynomials/fp_polymod_t.h"
using namespace H; using H::throws; using namespace spffl::intmath; using namespace spffl::polynomials;
struct TI { typedef intmod_t E; static E mk(const Q &a, const K &k) { return E((int)cf(a, 0), (int)k.p); } static Q rd(const E &e, const K &k) { if (e.get_modulus() != k.p) H::FAIL("an element carries the modulus %d, expected %d", e.get_modulus(), (int)k.p); return tr(Q{e.get_residue()}); } };
struct TR { typedef intrat_t E; static E mk(const Q &a, const K &) { return a.empty() ? E(0, 1) : E((int)a[0], (int)a[1]); } static Q rd(const E &e, const K &) { return rat(e.get_numerator(), e.get_denominator()); } };
struct T2 { typedef f2_polymod_t E; static f2_poly_t b(const Q &a) { f2_poly_t r; for (size_t i = 0; i < a.size(); i++) if (a[i]) r.set_bit((int)i); return r; } static E mk(const Q &a, const K &k) { return E(b(a), b(k.m)); } static Q rd(const E &e, const K &k) { if (!(e.get_modulus() == b(k.m))) H::FAIL("an element carries the wrong modulus"); f2_poly_t r = e.get_residue(); Q a(r.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) a[i] = r.bit_at((int)i); return tr(a); } };
struct TP { typedef fp_polymod_t E; static fp_poly_t b(const Q &a, const K &k) { fp_poly_t r(intmod_t((int)cf(a, 0), (int)k.p)); for (size_t i = 1; i < a.size(); i++) if (a[i]) r.set_coeff((int)i, intmod_t((int)a[i], (int)k.p)); return r; } static E mk(const Q &a, const K &k) { return E(b(a, k), b(k.m, k)); } static Q rd(const E &e, const K &k) { if (!(e.get_modulus() == b(k.m, k))) H::FAIL("an element carries the wrong modulus"); fp_poly_t r = e.get_residue(); Q a(r.find_degree() + 1); for (size_t i = 0; i < a.size(); i++) a[i] = r.get_coeff((int)i).get_residue(); return tr(a); } };
template <class T> static tmatrix<typename T::E> mkm(const MX &a, const K &k) { tmatrix<typename T::E> r(mr(a), mc(a)); for (int i = 0; i < mr(a); i++) for (int j = 0; j < mc(a); j++) r[i][j] = T::mk(a[i][j], k); return r; }
template <class T> static tvector<typename T::E> mkv(const std::vector<Q> &a, const K &k) { tvector<typename T::E> r((int)a.size()); for (size_t i = 0; i < a.size(); i++) r[(int)i] = T::mk(a[i], k); return r; }
template <class T> static std::vector<Q> rdv(const tvector<typename T::E> &v, const K &k) { std::vector<Q> r; for (int i = 0; i < v.get_num_elements(); i++) r.push_back(T::rd(v[i], k)); return r; }
template <class T> static MX rdm(const tmatrix<typename T::E> &m, const K &k) { MX r; for (int i = 0; i < m.get_num_rows(); i++) { r.push_back(rdv<T>(m[i], k)); if ((int)r.back().size() != m.get_num_cols()) H::FAIL("row %d has %d elements in a matrix of %d columns", i, (int)r.back().size(), m.get_num_cols()); } return r; }
template <class T> static void same(const tmatrix<typename T::E> &x, const MX &a, const K &k, const char *w, int line) {
  if (x.get_num_rows() != mr(a) || x.get_num_cols() != mc(a)) H::FAIL("%s: %d x %d, expected %d x %d (line %d)", w, x.get_num_rows(), x.get_num_cols(), mr(a), mc(a), line);
  MX b = rdm<T>(x, k); if (b != a) H::FAIL("%s: %s, expected %s (line %d)", w, mstr(b).c_str(), mstr(a).c_str(), line);
  tmatrix<typename T::E> e = mkm<T>(a, k); if (!(x == e) || x != e) H::FAIL("%s: does not compare equal to the same matrix built element by element (line %d)", w, line);
  if ((x == T::mk(Q(), k)) != mzerop(a) || x.is_zero() != mzerop(a)) H::FAIL("%s: zero test (line %d)", w, line);
}
#define SAME(x, a) same<T>(x, a, k, #x, __LINE__)
template <class T> static void pair(const MX &a, const MX &b, const Q &e, const K &k) {
  typedef typename T::E E; typedef tmatrix<E> M; CASE("A=%s B=%s e=%s over %s", mstr(a).c_str(), mstr(b).c_str(), qs(e).c_str(), ks(k).c_str());
  M x = mkm<T>(a, k), y = mkm<T>(b, k); E ee = T::mk(e, k); SAME(x, a); SAME(y, b); MX z = mzero(mr(a), mc(a)), s = madd(a, b, k), d = msub(a, b, k);
  SAME(x + y, s); SAME(x - y, d); SAME(-x, msub(z, a, k)); SAME(x * ee, msc(a, e, k)); CHECK((x == y) == (a == b)); CHECK((x != y) == (a != b));
  M t = x; t += y; SAME(t, s); t -= y; SAME(t, a); t *= ee; SAME(t, msc(a, e, k)); t = x; t += t; SAME(t, madd(a, a, k)); t -= t; SAME(t, z); t = y; SAME(t, b); t = t; SAME(t, b); t[0][0] = T::mk(fadd(b[0][0], fone(k), k), k); SAME(y, b); M u; u = x; SAME(u, a); M w(1, 1); w = x; SAME(w, a); M c(x); SAME(c, a); t = ee; SAME(t, MX(mr(a), std::vector<Q>(mc(a), e))); CHECK(t == ee); CHECK(!(t != ee)); SAME(M(ee, mr(a), mc(a)), MX(mr(a), std::vector<Q>(mc(a), e)));
  SAME(x.transpose(), mtr(a)); { MX h(a), v(a); for (auto &r : h) std::reverse(r.begin(), r.end()); std::reverse(v.begin(), v.end()); SAME(x.flip_horiz(), h); SAME(x.flip_vert(), v); std::reverse(h.begin(), h.end()); SAME(x.flip_horiz_vert(), h); }
  SAME(x * y.transpose(), mmul(a, mtr(b), k)); MX av = mmul(a, mtr(MX{b[0]}), k); { tvector<E> v = mkv<T>(b[0], k); if (mtr(MX{rdv<T>(x * v, k)}) != av) H::FAIL("matrix times vector"); if (rdv<T>(v, k) != b[0]) H::FAIL("vector operand changed"); }
  { M o = M::outer(mkv<T>(a[0], k), mkv<T>(b[0], k)); SAME(o, mmul(mtr(MX{a[0]}), MX{b[0]}, k)); }
  for (int j : {0, mc(a) - 1}) { std::vector<Q> col; for (auto &r : a) col.push_back(r[j]); CHECK(rdv<T>(x.get_column(j), k) == col); M p = y; tvector<E> cv = x.get_column(j); p.put_column(j, cv); MX o = b; for (int i = 0; i < mr(b); i++) o[i][j] = a[i][j]; SAME(p, o); }
  CHECK(throws([&] { x.get_column(-1); })); CHECK(throws([&] { x.get_column(mc(a)); })); CHECK(throws([&] { x[-1]; })); CHECK(throws([&] { x[mr(a)]; })); CHECK(throws([&] { M(0, 1); })); CHECK(throws([&] { M(1, 0); })); CHECK(throws([&] { tvector<E> v(mr(a) + 1); x.put_column(0, v); }));
  { M p; NOTHROW(p = x.paste(y)); SAME(p, mpaste(a, b)); NOTHROW(p = x.paste_vector(y.get_column(0))); SAME(p, mpaste(a, msub_(b, 0, 1))); for (int c2 : {1, mc(a) / 2, mc(a) - 1}) if (c2 > 0 && c2 < mc(a)) { M l, r; NOTHROW(x.split(l, r, c2)); SAME(l, msub_(a, 0, c2)); SAME(r, msub_(a, c2, mc(a))); } CHECK(throws([&] { M l, r; x.split(l, r, mc(a)); })); CHECK(throws([&] { M l, r; x.split(l, r, -1); })); }
  { int ri = -1; tvector<E> v = mkv<T>(b[mr(b) - 1], k); bool f = x.find_row(v, ri); int want = -1; for (int i = mr(a) - 1; i >= 0; i--) if (a[i] == b[mr(b) - 1]) want = i; CHECK(f == (want >= 0)); if (f) CHECK(ri == want); }
  if (mr(a) > 1) { M z2 = x; z2.swap(0, mr(a) - 1); MX o = a; std::swap(o[0], o[mr(a) - 1]); SAME(z2, o); } SAME(x, a); SAME(y, b);
}
template <class T> static void shapes(const MX &a, const MX &b, const K &k) {
  typedef tmatrix<typename T::E> M; CASE("A=%s B=%s over %s", mstr(a).c_str(), mstr(b).c_str(), ks(k).c_str()); M x = mkm<T>(a, k), y = mkm<T>(b, k);
  if (mc(a) == mr(b)) { SAME(x * y, mmul(a, b, k)); M t = x; t *= y; SAME(t, mmul(a, b, k)); } else CHECK(throws([&] { x * y; }));
  if (mr(a) != mr(b) || mc(a) != mc(b)) { CHECK(throws([&] { x + y; })); CHECK(throws([&] { x - y; })); CHECK(throws([&] { (void)(x == y); })); M t = x; CHECK(throws([&] { t += y; })); SAME(t, a); t = y; SAME(t, b); }
  if (mr(a) != mr(b)) CHECK(throws([&] { x.paste(y); })); if (mc(a) != mc(b)) CHECK(throws([&] { x * y[0]; })); SAME(x, a); SAME(y, b);
}
template <class T> static void reduce(const MX &a, const std::vector<Q> &rhs, const K &k) {
  typedef typename T::E E; typedef tmatrix<E> M; int rank; Q d; MX rr; try { rr = mrref(a, k, rank, d); } catch (int) { return; }
  CASE("A=%s b=%s over %s", mstr(a).c_str(), mstr(MX{rhs}).c_str(), ks(k).c_str()); M x = mkm<T>(a, k), t = x; E zero = T::mk(Q(), k), one = T::mk(fone(k), k);
  NOTHROW(t.row_reduce_below()); MX o = rdm<T>(t, k); if (!mechelon(o)) H::FAIL("row_reduce_below: %s is not in row echelon form", mstr(o).c_str()); if (mrref(o, k) != rr) H::FAIL("row_reduce_below: %s spans another row space", mstr(o).c_str()); CHECK(t.get_rank_rr() == rank);
  t = x; NOTHROW(t.row_echelon_form()); SAME(t, rr); int g = -1; NOTHROW(g = x.get_rank()); CHECK(g == rank, "got %d", g);
  { M nz; bool f = x.get_rr_non_zero_rows(nz); CHECK(f == (rank > 0)); if (f) { CHECK(nz.get_num_rows() == rank); CHECK(mrank(rdm<T>(nz, k), k) == rank); } M nz2; f = x.get_rech_non_zero_rows(nz2); CHECK(f == (rank > 0)); if (f) SAME(nz2, MX(rr.begin(), rr.begin() + rank)); }
  M kb; bool has = false; NOTHROW(has = x.get_kernel_basis(kb, zero, one)); CHECK(has == (rank < mc(a)));
  if (has) { MX b = rdm<T>(kb, k); if (mr(b) != mc(a) - rank || mc(b) != mc(a)) H::FAIL("kernel basis is %d x %d, expected %d x %d", mr(b), mc(b), mc(a) - rank, mc(a)); if (!mzerop(mmul(a, mtr(b), k))) H::FAIL("kernel basis %s is not annihilated", mstr(b).c_str()); if (mrank(b, k) != mr(b)) H::FAIL("kernel basis %s is dependent", mstr(b).c_str()); NOTHROW(x.check_kernel_basis(kb)); }
  { MX ab; int r2; Q d2; try { ab = mrref(mpaste(a, mtr(MX{rhs})), k, r2, d2); } catch (int) { return; } bool uniq = rank == mc(a) && r2 == rank; tvector<E> sol; bool f = false; NOTHROW(f = x.solve_unique(sol, mkv<T>(rhs, k), zero, one)); CHECK(f == uniq); if (f) { std::vector<Q> s = rdv<T>(sol, k); if ((int)s.size() != mc(a) || mmul(a, mtr(MX{s}), k) != mtr(MX{rhs})) H::FAIL("solve_unique: %s does not solve the system", mstr(MX{s}).c_str()); } }
  bool sq = mr(a) == mc(a); CHECK(x.is_square() == sq);
  if (!sq) { M t2; CHECK(throws([&] { x.det(); })); CHECK(throws([&] { x.inverse(t2); })); CHECK(throws([&] { x.make_I(zero, one); })); CHECK(throws([&] { x.exp(2, t2); })); CHECK(throws([&] { x + one; })); CHECK(throws([&] { x - one; })); CHECK(!x.is_I()); SAME(x, a); return; }
  int n = mr(a); MX I = mid(n, k); SAME(x.make_I(zero, one), I); CHECK(x.is_I() == (a == I)); CHECK((mkm<T>(I, k).is_I())); SAME(x + one, madd(a, I, k)); SAME(x - one, msub(a, I, k)); { M t2 = x; t2 += one; SAME(t2, madd(a, I, k)); t2 -= one; SAME(t2, a); }
  E dt; NOTHROW(dt = x.det()); if (T::rd(dt, k) != d) H::FAIL("determinant %s, expected %s", qs(T::rd(dt, k)).c_str(), qs(d).c_str()); { E s; t = x; t.row_reduce_below_with_scalar(s); if (fmul(T::rd(s, k), mdet(rdm<T>(t, k), k), k) != d) H::FAIL("row_reduce_below_with_scalar: scalar times determinant is not the determinant"); }
  bool ok = false; M iv; NOTHROW(ok = x.inverse(iv)); CHECK(ok == !d.empty()); if (ok) { SAME(iv, minv(a, k)); NOTHROW(x.check_inverse(iv)); }
  for (int e : {1, 2, 3, 5, 6, 0, -1, -2, -3, 2147483647, -2147483647}) { if (k.p == 0 && (e > 3 || e < -2)) continue; MX want; try { if (k.p == 0) mpow(e < 0 ? minv(a, k) : a, 4, k); want = e <= 0 && !ok ? a : e < 0 ? mpow(minv(a, k), -(long long)e, k) : mpow(a, e, k); } catch (int) { continue; } M r = mkm<T>(I, k); if (e <= 0 && mzerop(a)) { CHECK(throws([&] { if (!x.exp(e, r)) throw 1; })); continue; } int st = -1; NOTHROW(st = x.exp(e, r)); if (e <= 0 && !ok) { CHECK(st == 0); continue; } CHECK(st == 1); SAME(r, want); }
  if (ok && k.p) { M r; CHECK(throws([&] { x.exp(-2147483647 - 1, r); })); } SAME(x, a);
}
static Q er(const K &k) { if (k.p) return kr(k); ll_ n = rin(-3, 3); if (rnd() % 3 == 0) n = 0; return rat(n, rnd() % 5 ? 1 : 2); }
template <class T> static void once(const K &k, int cap) {
  unsigned long long q = 1; for (int i = 0; i < (k.simple() ? 1 : dg(k.m)); i++) q *= k.p; auto num = [&](unsigned long long v, int r, int c) { MX a = mzero(r, c); for (auto &x : a) for (auto &e : x) { e = k.simple() ? tr(Q{(ll_)(v % q)}) : knum(v % q, k); v /= q; } return a; };
  for (int r = 1; r <= 2; r++) for (int c = 1; c <= 3; c++) { unsigned long long n = 1; for (int i = 0; i < r * c && n < 1000000; i++) n *= q; unsigned long long st = n / cap + 1; for (unsigned long long i = 0; i < n; i += st) { std::vector<Q> b; for (int j = 0; j < r; j++) b.push_back(er(k)); reduce<T>(num(i, r, c), b, k); } }
}
template <class T> static void rnd1(const K &k, int hi) {
  int r = (int)rin(1, hi), c = rnd() % 2 ? r : (int)rin(1, hi); MX a; try { a = mrand(r, c, k, er); } catch (int) { return; } std::vector<Q> b; for (int i = 0; i < r; i++) b.push_back(er(k)); if (rnd() % 2) { MX x = mzero(c, 1); for (auto &v : x) v[0] = er(k); try { b = mtr(mmul(a, x, k))[0]; } catch (int) {} }
  reduce<T>(a, b, k); int m = rnd() % 4;
  if (m == 0) { MX b2 = mrand(r, c, k, er); if (rnd() % 3 == 0) b2[r - 1] = a[rnd() % r]; pair<T>(a, b2, er(k), k); } if (m == 1) shapes<T>(a, mrand(rnd() % 2 ? c : (int)rin(1, hi), (int)rin(1, hi), k, er), k);
}
static K F(ll_ p) { return K{p, Q()}; }
int main(int c, char **v) {
  H::add("integers modulo p", 4, [] { for (ll_ p : {2, 3, 5}) once<TI>(F(p), 120); }, [] { static const int P[] = {2, 3, 5, 7, 11, 101, 1009}; rnd1<TI>(F(P[rnd() % 7]), 9); });
  H::add("rationals", 2, [] {}, [] { try { rnd1<TR>(K{0, Q()}, 3); } catch (int) {} /* outside the oracle magnitudes */ });
  H::add("F2 extension", 2, [] { once<T2>(fields(0)[2], 60); }, [] { const K *k; do k = &fields(0)[rnd() % fields(0).size()]; while (dg(k->m) > 20); rnd1<T2>(*k, 5); });
  H::add("Fp extension", 2, [] { once<TP>(fields(1)[11], 20); }, [] { rnd1<TP>(fields(1)[rnd() % fields(1).size()], 4); });
  return H::run(c, v);
}
