#include "mat.h"
#include "spffl/bits/bit_matrix_t.h"
using namespace H; using namespace spffl::bits;
static const K k{2, Q()};
static bit_vector_t mkv(const std::vector<Q> &a) { bit_vector_t r((int)a.size()); for (size_t i = 0; i < a.size(); i++) r.set((int)i, bit_t(a[i].empty() ? 0 : 1)); return r; }
static bit_matrix_t mk(const MX &a) { bit_matrix_t r(mr(a), mc(a)); for (int i = 0; i < mr(a); i++) for (int j = 0; j < mc(a); j++) r[i].set(j, bit_t(a[i][j].empty() ? 0 : 1)); return r; }
static std::vector<Q> rdv(const bit_vector_t &v) { std::vector<Q> r; for (int i = 0; i < v.get_num_elements(); i++) r.push_back(v.get(i) == 1 ? Q{1} : Q()); return r; }
static MX rd(bit_matrix_t &m) { MX r; for (int i = 0; i < m.get_num_rows(); i++) { r.push_back(rdv(m[i])); if ((int)r.back().size() != m.get_num_cols()) H::FAIL("row %d has %d elements in a matrix of %d columns", i, (int)r.back().size(), m.get_num_cols()); } return r; }
static void same(bit_matrix_t x, const MX &a, const char *w, int line) {
  if (x.get_num_rows() != mr(a) || x.get_num_cols() != mc(a)) H::FAIL("%s: %d x %d, expected %d x %d (line %d)", w, x.get_num_rows(), x.get_num_cols(), mr(a), mc(a), line);
  MX b = rd(x); if (b != a) H::FAIL("%s: %s, expected %s (line %d)", w, mstr(b).c_str(), mstr(a).c_str(), line);
  bit_matrix_t e = mk(a); if (!(x == e) || x != e) H::FAIL("%s: does not compare equal to the same matrix built bit by bit (line %d)", w, line);
  if (x.is_zero() != mzerop(a) || (x == bit_t(0)) != mzerop(a)) H::FAIL("%s: zero test (line %d)", w, line);
}
#define SAME(x, a) same(x, a, #x, __LINE__)
static Q el(const K &) { return H::rnd() & 1 ? Q{1} : Q(); }
static void pair(const MX &a, const MX &b) { // same shape
  CASE("A=%s B=%s", mstr(a).c_str(), mstr(b).c_str()); bit_matrix_t x = mk(a), y = mk(b); MX s = madd(a, b, k); SAME(x, a); SAME(y, b);
  SAME(x + y, s); SAME(x - y, s); SAME(-x, a); CHECK((x == y) == (a == b)); CHECK((x != y) == (a != b));
  bit_matrix_t t = x; t += y; SAME(t, s); t -= y; SAME(t, a); t += t; SAME(t, mzero(mr(a), mc(a))); t = y; SAME(t, b); t = t; SAME(t, b); t[0].set(0, bit_t(b[0][0].empty() ? 1 : 0)); SAME(y, b); t = bit_t(1); bool all = true; for (auto &v : rd(t)) for (auto &e : v) all &= !e.empty(); CHECK(all); CHECK(t == bit_t(1)); SAME(x.transpose(), mtr(a)); SAME(x.transpose().transpose(), a);
  bit_matrix_t u; u = x; SAME(u, a); bit_matrix_t w(1, 1); w = x; SAME(w, a); bit_matrix_t c(x); SAME(c, a); SAME(x, a); SAME(bit_matrix_t(mr(a), mc(a)), mzero(mr(a), mc(a)));
  CHECK(throws([&] { x[-1]; })); CHECK(throws([&] { x[mr(a)]; })); CHECK(throws([&] { bit_matrix_t(0, 3); })); CHECK(throws([&] { bit_matrix_t(3, -1); }));
  SAME(x * mk(mtr(b)), mmul(a, mtr(b), k)); std::vector<Q> v = b[0]; MX av = mmul(a, mtr(MX{v}), k); CHECK(mtr(MX{rdv(x * mkv(v))}) == av);
  SAME(bit_matrix_t::outer(mkv(a[0]), mkv(b[0])), mmul(mtr(MX{a[0]}), MX{b[0]}, k));
  { bit_matrix_t p; NOTHROW(p = x.paste(y)); SAME(p, mpaste(a, b)); for (int c2 : {1, mc(a) / 2, mc(a) - 1}) if (c2 > 0 && c2 < mc(a)) { bit_matrix_t l, r; NOTHROW(x.split(l, r, c2)); SAME(l, msub_(a, 0, c2)); SAME(r, msub_(a, c2, mc(a))); } CHECK(throws([&] { bit_matrix_t l, r; x.split(l, r, mc(a)); })); CHECK(throws([&] { bit_matrix_t l, r; x.split(l, r, -1); })); }
  if (mr(a) > 1) { bit_matrix_t z = x; z.swap(0, mr(a) - 1); MX o = a; std::swap(o[0], o[mr(a) - 1]); SAME(z, o); }
}
static void shapes(const MX &a, const MX &b) {
  CASE("A=%s B=%s", mstr(a).c_str(), mstr(b).c_str()); bit_matrix_t x = mk(a), y = mk(b);
  if (mc(a) == mr(b)) { SAME(x * y, mmul(a, b, k)); bit_matrix_t t = x; t *= y; SAME(t, mmul(a, b, k)); } else { CHECK(throws([&] { x * y; })); }
  if (mr(a) != mr(b) || mc(a) != mc(b)) { CHECK(throws([&] { x + y; })); CHECK(throws([&] { x - y; })); CHECK(throws([&] { (void)(x == y); })); bit_matrix_t t = x; CHECK(throws([&] { t += y; })); SAME(t, a); t = y; SAME(t, b); }
  if (mr(a) != mr(b)) CHECK(throws([&] { x.paste(y); })); if (mc(a) != mc(b)) CHECK(throws([&] { x * mkv(b[0]); }));
  SAME(x, a); SAME(y, b);
}
static void reduce(const MX &a) {
  CASE("A=%s", mstr(a).c_str()); int rank; Q d; MX rr = mrref(a, k, rank, d); bit_matrix_t x = mk(a), t = x;
  NOTHROW(t.row_reduce_below()); MX o = rd(t); if (!mechelon(o)) H::FAIL("row_reduce_below: %s is not in row echelon form", mstr(o).c_str()); if (mrref(o, k) != rr) H::FAIL("row_reduce_below: %s spans another row space", mstr(o).c_str());
  CHECK(t.get_rank_rr() == rank); t = x; NOTHROW(t.row_echelon_form()); SAME(t, rr); int g = -1; NOTHROW(g = x.get_rank()); CHECK(g == rank, "got %d", g); SAME(x, a);
  bit_matrix_t kb; bool has = false; NOTHROW(has = x.get_kernel_basis(kb)); CHECK(has == (rank < mc(a)));
  if (has) { MX b = rd(kb); if (mr(b) != mc(a) - rank || mc(b) != mc(a)) H::FAIL("kernel basis is %d x %d, expected %d x %d", mr(b), mc(b), mc(a) - rank, mc(a)); if (!mzerop(mmul(a, mtr(b), k))) H::FAIL("kernel basis %s is not annihilated", mstr(b).c_str()); if (mrank(b, k) != mr(b)) H::FAIL("kernel basis %s is dependent", mstr(b).c_str()); NOTHROW(x.check_kernel_basis(kb)); }
  bool sq = mr(a) == mc(a); CHECK(x.is_square() == sq);
  if (!sq) { bit_matrix_t t2; CHECK(throws([&] { x.det(); })); CHECK(throws([&] { x.inverse(t2); })); CHECK(throws([&] { x.make_I(); })); CHECK(throws([&] { x.exp(2, t2); })); CHECK(throws([&] { x + bit_t(1); })); CHECK(throws([&] { x - bit_t(1); })); CHECK(!x.is_I()); return; }
  int n = mr(a); MX I = mid(n, k); SAME(x.make_I(), I); CHECK(x.is_I() == (a == I)); CHECK(mk(I).is_I()); SAME(x + bit_t(1), madd(a, I, k)); SAME(x - bit_t(1), madd(a, I, k)); SAME(x + bit_t(0), a); { bit_matrix_t t2 = x; t2 += bit_t(1); SAME(t2, madd(a, I, k)); t2 -= bit_t(1); SAME(t2, a); }
  bit_t dt; NOTHROW(dt = x.det()); CHECK((dt == 1) == !d.empty()); bool ok = false; bit_matrix_t iv; NOTHROW(ok = x.inverse(iv)); CHECK(ok == !d.empty()); if (ok) { SAME(iv, minv(a, k)); NOTHROW(x.check_inverse(iv)); }
  for (int e : {1, 2, 3, 4, 5, 7, 13, 0, -1, -2, -3, -6, 2147483647, -2147483647}) { bit_matrix_t r = mk(I); int st = -1; NOTHROW(st = x.exp(e, r)); if (e <= 0 && !ok) { CHECK(st == 0); continue; } CHECK(st == 1); SAME(r, e < 0 ? mpow(minv(a, k), -(long long)e, k) : mpow(a, e, k)); }
  if (ok) { bit_matrix_t r; CHECK(throws([&] { x.exp(-2147483647 - 1, r); })); } SAME(x, a);
}
static MX num(unsigned long long v, int r, int c) { MX a = mzero(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++, v >>= 1) if (v & 1) a[i][j] = Q{1}; return a; }
static int dim(int hi) { static const int D[] = {1, 2, 3, 7, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129}; int d = rnd() % 3 ? (int)rin(1, 12) : D[rnd() % 14]; return d > hi ? (int)rin(1, hi) : d; }
int main(int c, char **v) {
  H::add("small matrices", 2, [] { for (int r = 1; r <= 3; r++) for (int q = 1; q <= 3; q++) for (unsigned long long i = 0; i < (1ull << (r * q)); i++) reduce(num(i, r, q)); for (int i = 0; i < 16; i++) for (int j = 0; j < 16; j++) pair(num(i, 2, 2), num(j, 2, 2)); for (int i = 0; i < 64; i += 5) for (int j = 0; j < 64; j += 3) { shapes(num(i, 2, 3), num(j, 3, 2)); shapes(num(i, 2, 3), num(j, 2, 2)); shapes(num(i, 2, 2), num(j, 3, 2)); } },
    [] { reduce(mrand((int)rin(1, 6), (int)rin(1, 6), k, el)); });
  H::add("pairs", 3, [] {}, [] { int r = dim(70), q = dim(130); pair(mrand(r, q, k, el), mrand(r, q, k, el)); });
  H::add("products and mismatches", 2, [] {}, [] { int r = dim(40), q = dim(130); shapes(mrand(r, q, k, el), rnd() % 2 ? mrand(q, dim(70), k, el) : mrand(dim(40), dim(130), k, el)); });
  H::add("row reduction", 4, [] {}, [] { int r = dim(rnd() % 4 ? 20 : 66), q = rnd() % 2 ? r : dim(130); reduce(mrand(r, q, k, el)); });
  return H::run(c, v);
}
