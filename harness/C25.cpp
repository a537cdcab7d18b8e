// Enumerations of polynomials and residues: every element once, nothing else.
#include <numeric>
#include <set>
#include "adapt.h"
#include "spffl/list/list_elements.h"
using namespace spffl::list;
using spffl::polynomials::f2n_polymod_t; using spffl::polynomials::fp_polymod_t;
struct B2 : A2 { typedef f2_polymod_t R; static tvector<P> polys(const K &, int d) { return f2_poly_list(d); } static tvector<R> mods(const P &m, sp_list_type_t t) { return f2_polymod_list(m, t); } };
struct BP : AP { typedef fp_polymod_t R; static tvector<P> polys(const K &k, int d) { return fp_poly_list((int)k.p, d); } static tvector<R> mods(const P &m, sp_list_type_t t) { return fp_polymod_list(m, t); } };
struct BN : AN { typedef f2n_polymod_t R; static tvector<P> polys(const K &k, int d) { return f2n_poly_list(T2N::base(k.m, k), d); } static tvector<R> mods(const P &m, sp_list_type_t t) { return f2n_polymod_list(m, t); } };
static unsigned long long pw_(unsigned long long q, int n) { unsigned long long r = 1; while (n-- > 0) r *= q; return r; }
static void setis(const std::vector<X> &got, const std::set<X> &want) {
  std::set<X> s; for (auto &x : got) { if (!s.insert(x).second) FAIL("%s is listed twice", xs(x).c_str()); if (!want.count(x)) FAIL("%s is listed", xs(x).c_str()); }
  for (auto &x : want) if (!s.count(x)) FAIL("%s is not listed", xs(x).c_str());
}
template <class B> static void polys(const K &k, int d) {
  CASE("%s: list of the polynomials of degree %d over %s", B::n(), d, ks(k).c_str()); auto q = (unsigned long long)fieldsize(k);
  std::set<X> want; for (unsigned long long v = pw_(q, d); v < pw_(q, d + 1); v++) want.insert(xnum<B>(v, k));
  tvector<typename B::P> l; NOTHROW(l = B::polys(k, d)); std::vector<X> got; for (int i = 0; i < l.get_num_elements(); i++) got.push_back(B::rd(l[i], k)); setis(got, want);
}
template <class B> static void mods(const X &m, const K &k) {
  auto q = (unsigned long long)fieldsize(k); int d = xdg(m); typename B::P lm = B::mk(m, k);
  std::set<X> all, un, non; for (unsigned long long v = 0; v < pw_(q, d); v++) { X x = xnum<B>(v, k); all.insert(x); (xdg(xgcd(m, x, k)) == 0 ? un : non).insert(x); }
  static const sp_list_type_t T[] = {SP_LIST_ALL, SP_LIST_UNITS, SP_LIST_NON_UNITS}; const std::set<X> *W[] = {&all, &un, &non};
  for (int t = 0; t < 3; t++) {
    CASE("%s: list %d of the residues modulo %s over %s", B::n(), t, xs(m).c_str(), ks(k).c_str());
    tvector<typename B::R> l; NOTHROW(l = B::mods(lm, T[t])); std::vector<X> got;
    for (int i = 0; i < l.get_num_elements(); i++) { if (B::rd(l[i].get_modulus(), k) != m) FAIL("element %d has modulus %s", i, xs(B::rd(l[i].get_modulus(), k)).c_str()); got.push_back(B::rd(l[i].get_residue(), k)); }
    setis(got, *W[t]);
  }
  CASE("%s: unknown list kind", B::n()); CHECK(throws([&] { B::mods(lm, SP_LIST_MULTIPLES); }));
}
static void ints(int m) {
  for (int t = 0; t < 3; t++) {
    CASE("list %d of the residues modulo %d", t, m); tvector<intmod_t> l; NOTHROW(l = intmod_list(m, t == 0 ? SP_LIST_ALL : t == 1 ? SP_LIST_UNITS : SP_LIST_NON_UNITS));
    int j = 0; for (int x = 0; x < m; x++) { bool u = std::gcd(x, m) == 1; if (t == 0 || (t == 1) == u) { CHECK(j < l.get_num_elements()); CHECK(l[j].get_residue() == x && l[j].get_modulus() == m); j++; } } CHECK(j == l.get_num_elements());
  }
  CASE("unknown list kind modulo %d", m); CHECK(throws([&] { intmod_list(m, SP_LIST_REL_PRIME); }));
}
static void glist(int g, int m) {
  int d = std::gcd(g, m);
  for (int t = 0; t < 2; t++) {
    CASE("%s %d modulo %d", t ? "elements relatively prime to" : "multiples of", g, m); tvector<intmod_t> l; NOTHROW(l = intmod_glist(intmod_t(g, m), t ? SP_LIST_REL_PRIME : SP_LIST_MULTIPLES));
    int j = 0; for (int x = 0; x < m; x++) if (t ? std::gcd(x, d) == 1 : x % d == 0) { CHECK(j < l.get_num_elements()); CHECK(l[j].get_residue() == x && l[j].get_modulus() == m); j++; } CHECK(j == l.get_num_elements());
  }
  CASE("unknown list kind for %d modulo %d", g, m); CHECK(throws([&] { intmod_glist(intmod_t(g, m), SP_LIST_UNITS); }));
}
static void f2glist(const X &g, const X &m) {
  K k = fpk(2); X d = xgcd(m, g, k); std::set<X> mul, rel;
  for (unsigned long long v = 0; v < pw_(2, xdg(m)); v++) { X x = xnum<A2>(v, k); if (xmod(x, d, k).empty()) mul.insert(x); if (xdg(xgcd(x, d, k)) == 0) rel.insert(x); }
  for (int t = 0; t < 2; t++) {
    CASE("%s %s modulo %s over F2", t ? "elements relatively prime to" : "multiples of", xs(g).c_str(), xs(m).c_str()); tvector<f2_polymod_t> l; NOTHROW(l = f2_polymod_glist(f2_polymod_t(A2::mk(g, k), A2::mk(m, k)), t ? SP_LIST_REL_PRIME : SP_LIST_MULTIPLES));
    std::vector<X> got; for (int i = 0; i < l.get_num_elements(); i++) { CHECK(A2::rd(l[i].get_modulus(), k) == m); got.push_back(A2::rd(l[i].get_residue(), k)); } setis(got, t ? rel : mul);
  }
}
template <class B, class FA, class FP> static void spaces(const X &m, const K &k, int n, FA fa, FP fp) {
  auto q = pw_((unsigned long long)fieldsize(k), xdg(m)); typename B::P lm = B::mk(m, k);
  auto rd = [&](const tmatrix<typename B::R> &M, std::vector<std::vector<X>> &o) { for (int i = 0; i < M.get_num_rows(); i++) { std::vector<X> v; for (int j = 0; j < M.get_num_cols(); j++) { if (B::rd(M[i][j].get_modulus(), k) != m) FAIL("entry (%d,%d) has the wrong modulus", i, j); v.push_back(B::rd(M[i][j].get_residue(), k)); } o.push_back(v); } };
  { CASE("%s: affine %d-space over residues modulo %s over %s", B::n(), n, xs(m).c_str(), ks(k).c_str()); std::vector<std::vector<X>> o; tmatrix<typename B::R> M; NOTHROW(M = fa(lm, n)); rd(M, o); CHECK(M.get_num_cols() == n);
    std::set<std::vector<X>> s(o.begin(), o.end()); if (o.size() != pw_(q, n) || s.size() != o.size()) FAIL("%zu tuples, %zu distinct, expected %llu", o.size(), s.size(), pw_(q, n)); }
  { CASE("%s: projective %d-space over residues modulo %s over %s", B::n(), n, xs(m).c_str(), ks(k).c_str()); std::vector<std::vector<X>> o; tmatrix<typename B::R> M; NOTHROW(M = fp(lm, n)); rd(M, o); CHECK(M.get_num_cols() == n + 1);
    unsigned long long want = 0; for (int i = 0; i <= n; i++) want += pw_(q, i);
    // one representative per line through the origin: normalise by the last non-zero coordinate
    std::set<std::vector<X>> s; for (auto &v : o) { int l = n; while (l >= 0 && v[l].empty()) l--; if (l < 0) FAIL("the zero tuple is listed"); X c = xinv(v[l], m, k); auto w = v; for (auto &x : w) x = xmod(xmul(x, c, k), m, k); if (!s.insert(w).second) FAIL("a point is listed twice"); }
    if (o.size() != want) FAIL("%zu points, expected %llu", o.size(), want); }
}
template <class B> static X rmod(const K &k, double lim) { for (;;) { X m = rx(1, 12, k); double n = 1; for (int i = 0; i < xdg(m); i++) n *= fieldsize(k); if (n <= lim) return m; } }
int main(int c, char **v) {
  H::add("integers", 1, [] { for (int m = 2; m <= 130; m++) ints(m); for (int m : {210, 255, 256, 997, 1024, 2310}) ints(m); for (int m = 2; m <= 40; m++) for (int g = 0; g < m; g++) glist(g, m); for (int g : {0, 1, 30, 105, 209}) glist(g, 210); }, nullptr);
  H::add("polynomials", 1, [] { for (int d = 0; d <= 9; d++) polys<B2>(fpk(2), d); for (int p : {2, 3, 5, 7, 11, 31}) for (int d = 0; d <= 6; d++) if (pw_(p, d + 1) <= 4000) polys<BP>(fpk(p), d); for (auto &k : fields(0)) for (int d = 0; d <= 4; d++) if (dg(k.m) * (d + 1) <= 10) polys<BN>(k, d); }, nullptr);
  H::add("residues", 1, [] { K k = fpk(2); for (int i = 2; i < 300; i++) mods<B2>(xnum<A2>(i, k), k); for (int p : {2, 3, 5, 7, 13}) { K f = fpk(p); for (int i = p; i < (p < 5 ? 200 : 160); i++) { X m = xnum<AP>(i, f); if (pw_(p, xdg(m)) <= 400) mods<BP>(m, f); } }
    for (auto &f : fields(0)) if (dg(f.m) <= 3) { int q = 1 << dg(f.m); for (int i = q; i < 100; i++) { X m = xnum<AN>(i, f); if (pw_(q, xdg(m)) <= 512) mods<BN>(m, f); } } }, nullptr);
  H::add("multiples and relatively prime residues over F2", 1, [] { K k = fpk(2); for (int m = 2; m < 32; m++) for (int g = 0; g < 1 << (xdg(xnum<A2>(m, k))); g++) f2glist(xnum<A2>(g, k), xnum<A2>(m, k)); }, nullptr);
  auto sp = [](bool all) { K k = fpk(2); for (Q m : {Q{0, 1}, Q{1, 1, 1}, Q{1, 1, 0, 1}, Q{1, 1, 0, 0, 1}}) for (int n = 1; n <= 4; n++) if (dg(m) * n <= 9) { X x; for (auto e : m) x.push_back(e ? Q{e} : Q()); spaces<B2>(x, k, n, f2_polymod_An_list, f2_polymod_Pn_list); }
    for (int p : {2, 3, 5}) { K f = fpk(p); for (int d = 1; d <= 3; d++) for (int i = (int)pw_(p, d), u = 0; u < (all ? 9 : 2); i++) { X m = xnum<AP>(i, f); if (!xirr(m, f)) continue; u++; for (int n = 1; n <= 4; n++) if (pw_(p, d * n) <= 700) spaces<BP>(m, f, n, fp_polymod_An_list, fp_polymod_Pn_list); } } };
  H::add("affine and projective spaces", 1, [sp] { sp(false); }, nullptr);
  H::add("random residues", 2, nullptr, [] { switch (rnd() % 5) { case 0: mods<B2>(rmod<A2>(fpk(2), 1024), fpk(2)); break; case 1: { static const int P[] = {2, 3, 5, 7, 11, 13, 31}; K k = fpk(P[rnd() % 7]); mods<BP>(rmod<AP>(k, 800), k); break; }
    case 2: { const K *k; do k = &nk(); while (dg(k->m) > 4); mods<BN>(rmod<AN>(*k, 600), *k); break; } case 3: { int m = (int)rin(2, 3000); ints(m); break; } default: { int m = (int)rin(2, 3000); glist((int)rin(0, m - 1), m); X f = rmod<A2>(fpk(2), 512); f2glist(xmod(xr(9, fpk(2)), f, fpk(2)), f); } } });
  return H::run(c, v);
}
