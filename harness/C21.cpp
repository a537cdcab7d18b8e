#include "f2.h"
#include "fp.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/factorization/int_factor.h"
#include <map>
#include <set>
#include <typeinfo>
#include <vector>
using namespace H;
// three element types: how to make one, the unit element, products, and an order of our own
struct KI { typedef int T; static T f(int k) { static const int P[] = {2, 3, 5, 7, 11, 13, 17, 1, 65537, 4, 6, 2147483647, 46341, 19, 23, 29, 31, 37, 41, 43}; return k < 20 ? P[k] : 100 + k; } static T unit(int k) { return k & 1 ? -1 : 1; } static T one() { return 1; } static T up(T u, int) { return u; } };
struct K2 { typedef f2_poly_t T; static T f(int k) { return f2_poly_t::from_base_rep((uint64_t)k * 5 + 2); } static T unit(int) { return f2_poly_t(1); } static T one() { return f2_poly_t(1); } };
struct KP { typedef fp_poly_t T; static T f(int k) { k = k * 4 + 7; Q a; while (k) { a.push_back(k % 7); k /= 7; } return mkf(a, 7); } static T unit(int k) { return mkf(Q{k % 6 + 1}, 7); } static T one() { return mkf(Q{1}, 7); } };
template <class K> struct L { std::vector<std::pair<typename K::T, int>> f; bool hu = false; typename K::T u = K::one(); }; // the oracle: kept sorted by the elements' own order
template <class K> static void oins(L<K> &l, const typename K::T &e, int c) {
  size_t i = 0; for (; i < l.f.size(); i++) { if (l.f[i].first == e) { l.f[i].second += c; return; } if (e < l.f[i].first) break; }
  l.f.insert(l.f.begin() + i, std::make_pair(e, c));
}
template <class K> static void ounit(L<K> &l, const typename K::T &e) { l.u = l.hu ? typename K::T(l.u * e) : e; l.hu = true; }
template <class K> static void same(const tfacinfo<typename K::T> &x, const L<K> &l, const char *w) {
  if (x.get_num_distinct() != (int)l.f.size()) H::FAIL("%s: %d distinct factors, expected %zu", w, x.get_num_distinct(), l.f.size());
  int n = 0;
  for (size_t i = 0; i < l.f.size(); i++) { n += l.f[i].second; if (!(x.get_ith_factor((int)i) == l.f[i].first)) H::FAIL("%s: factor %zu is wrong", w, i); if (x.get_ith_count((int)i) != l.f[i].second) H::FAIL("%s: factor %zu has multiplicity %d, expected %d", w, i, x.get_ith_count((int)i), l.f[i].second); }
  if (x.get_num_factors() != n) H::FAIL("%s: %d factors, expected %d", w, x.get_num_factors(), n);
  typename K::T u = K::f(3); bool g = x.get_unit(u); if (g != l.hu) H::FAIL("%s: unit present %d, expected %d", w, g, l.hu);
  if (!(u == (l.hu ? l.u : K::f(3)))) H::FAIL("%s: unit is wrong", w);
  int d = x.get_num_distinct();
  for (int i : {-1, d, d + 1, 2147483647}) if (!throws([&] { (void)x.get_ith_factor(i); }) || !throws([&] { (void)x.get_ith_count(i); })) H::FAIL("%s: index %d accepted with %d factors", w, i, d);
}
template <class K> static void build(tfacinfo<typename K::T> &x, L<K> &l, int n, int distinct, bool units, bool neg = false) {
  for (int i = 0; i < n; i++) {
    typename K::T e = K::f((int)rin(0, distinct - 1));
    if (rnd() % 3 == 0) { x.insert_factor(e); oins(l, e, 1); } else { int c = (int)rin(neg ? -3 : 0, 5); x.insert_factor(e, c); oins(l, e, c); }
    if (units && rnd() % 8 == 0) { typename K::T u = K::unit((int)rin(0, 9)); x.insert_unit(u); ounit(l, u); }
  }
}
template <class K> static typename K::T tpow(const typename K::T &b, int e) { typename K::T r = K::one(); while (e-- > 0) r = r * b; return r; }
// ---- insertion histories, copies, merges, powers
template <class K> static void history(int n, int distinct, int m) {
  CASE("%s: %d insertions from %d values, second list of %d", typeid(K).name(), n, distinct, m);
  typedef tfacinfo<typename K::T> F;
  F x; L<K> l; build<K>(x, l, n, distinct, rnd() % 2, rnd() % 4 == 0); same<K>(x, l, "inserted");
  F y; L<K> k; build<K>(y, k, m, distinct, rnd() % 2); same<K>(y, k, "second list");
  F c(x); same<K>(c, l, "copy"); L<K> cl = l; build<K>(c, cl, 3, distinct + 3, true); same<K>(c, cl, "copy after more insertions"); same<K>(x, l, "original after changing the copy");
  F a; { L<K> d; build<K>(a, d, (int)rin(0, 30), distinct, true); } F &r = (a = x); CHECK(&r == &a); same<K>(a, l, "assigned"); L<K> al = l; build<K>(a, al, 25, distinct + 5, true); same<K>(a, al, "assigned then extended"); same<K>(x, l, "source of the assignment");
  F &s = (x = *&x); CHECK(&s == &x); same<K>(x, l, "assigned to itself");
  F mg(x); mg.merge(y); L<K> ml = l; for (auto &p : k.f) oins(ml, p.first, p.second); if (k.hu) ounit(ml, k.u); same<K>(mg, ml, "merged"); same<K>(y, k, "merged-in list");
  F me(y); me.merge(me); L<K> sl = k; for (auto &p : sl.f) p.second *= 2; if (k.hu) sl.u = k.u * k.u; same<K>(me, sl, "merged with itself");
  int e = (int)rin(0, 6); F ex(x); ex.exp_all(e); L<K> el = l; for (auto &p : el.f) p.second *= e; if (l.hu) el.u = tpow<K>(l.u, e); same<K>(ex, el, "raised to a power");
}
// ---- products and divisors of small lists
template <class K> static void divisors(const std::vector<std::pair<int, int>> &fs, bool unit) {
  std::string d; for (auto &p : fs) d += " f" + std::to_string(p.first) + "^" + std::to_string(p.second);
  CASE("%s: product and divisors of%s%s", typeid(K).name(), d.c_str(), unit ? " with a unit" : "");
  typedef typename K::T T; typedef tfacinfo<T> F;
  F x; L<K> l; for (auto &p : fs) { x.insert_factor(K::f(p.first), p.second); oins(l, K::f(p.first), p.second); } if (unit) { x.insert_unit(K::unit(1)); ounit(l, K::unit(1)); }
  T prod = K::one(); if (unit) prod = prod * K::unit(1); for (auto &p : l.f) prod = prod * tpow<K>(p.first, p.second);
  CHECK(x.unfactor(K::one()) == prod);
  tvector<T> mp;
  if (l.f.empty() && !unit) { CHECK(throws([&] { (void)x.get_num_divisors(); })); CHECK(throws([&] { (void)x.get_kth_divisor(0, K::one()); })); CHECK(throws([&] { (void)x.get_all_divisors(K::one()); })); CHECK(throws([&] { (void)x.get_maximal_proper_divisors(mp, K::one()); })); return; }
  std::vector<T> all{K::one()}; for (auto &p : l.f) { std::vector<T> b; for (auto &v : all) for (int j = 0; j <= p.second; j++) b.push_back(v * tpow<K>(p.first, j)); all = b; }
  if (x.get_num_divisors() != (int)all.size()) H::FAIL("%d divisors, expected %zu", x.get_num_divisors(), all.size());
  auto cnt = [&](const std::vector<T> &w, const T &v) { int n = 0; for (auto &t : w) n += t == v; return n; };
  std::vector<T> seen; for (int k = 0; k < (int)all.size(); k++) { T v = x.get_kth_divisor(k, K::one()); if (!cnt(all, v)) H::FAIL("divisor number %d is not a divisor of the product", k); if (cnt(seen, v) >= cnt(all, v)) H::FAIL("divisor number %d repeats an earlier one", k); seen.push_back(v); }
  tvector<T> v = x.get_all_divisors(K::one()); if (v.get_num_elements() != (int)all.size()) H::FAIL("list of %d divisors, expected %zu", v.get_num_elements(), all.size());
  for (int i = 0; i < (int)all.size(); i++) { if (i && v[i] < v[i - 1]) H::FAIL("list of divisors out of order at %d", i); int n = 0; for (int j = 0; j < (int)all.size(); j++) n += v[j] == all[i]; if (n != cnt(all, all[i])) H::FAIL("divisor listed %d times", n); }
  same<K>(x, l, "list after enumerating its divisors");
  bool g = x.get_maximal_proper_divisors(mp, K::one()); if (g == l.f.empty()) H::FAIL("maximal proper divisors: returned %d", g);
  if (g) {
    std::vector<T> want; for (size_t i = 0; i < l.f.size(); i++) { T t = K::one(); if (unit) t = t * K::unit(1); for (size_t j = 0; j < l.f.size(); j++) t = t * tpow<K>(l.f[j].first, l.f[j].second - (i == j)); want.push_back(t); }
    if (mp.get_num_elements() != (int)want.size()) H::FAIL("%d maximal proper divisors, expected %zu", mp.get_num_elements(), want.size());
    for (size_t i = 0; i < want.size(); i++) { if (i && mp[(int)i] < mp[(int)i - 1]) H::FAIL("maximal proper divisors out of order"); int n = 0; for (size_t j = 0; j < want.size(); j++) n += mp[(int)j] == want[i]; if (n != cnt(want, want[i])) H::FAIL("maximal proper divisor listed %d times", n); }
  }
  same<K>(x, l, "list after enumerating its maximal proper divisors");
}
// ---- integers
static void intfac(ll n) {
  CASE("int_factor(%lld)", n);
  tfacinfo<int> x = spffl::factorization::int_factor((int)n); L<KI> l;
  if (n >= -1 && n <= 1) { l.hu = true; l.u = (int)n; } else { ll m = n; if (n < 0) { l.hu = true; l.u = -1; m = -n; } for (ll d = 2; d * d <= m; d++) while (m % d == 0) { oins(l, (int)d, 1); m /= d; } if (m > 1) oins(l, (int)m, 1); }
  same<KI>(x, l, "factors"); CHECK(x.unfactor(1) == (int)n);
}
int main(int c, char **v) {
  H::add("int_factor", 3, [] { for (ll n = -3000; n <= 3000; n++) intfac(n); for (ll p : {65521ll, 65519ll, 65537ll, 65539ll, 46337ll, 46349ll}) for (ll q : {1ll, 2ll, 3ll, 32749ll, 32719ll, 46337ll}) if (p * q < 2147483648ll) { intfac(p * q); intfac(-p * q); } for (int k = 1; k < 31; k++) for (int e = -2; e <= 2; e++) { intfac((1ll << k) + e); intfac(-(1ll << k) - e); } intfac(2147483647); intfac(-2147483647); intfac(1162261467); intfac(2147117569); intfac(2146654199); },
    [] { ll n; switch (rnd() % 5) { case 0: n = rin(-2147483647, 2147483647); break; case 1: { n = 1; for (;;) { static const int P[] = {2, 3, 5, 7, 11, 13}; ll t = n * P[rnd() % 6]; if (t > 2147483647) break; n = t; } break; } case 2: { ll a = rin(2, 65536), b = rin(2, 32767); n = a * b; break; } case 3: { ll a = rin(2, 46340); n = a * a; break; } default: n = rin(2147480000, 2147483647); } intfac(rnd() % 3 ? n : -n); });
  H::add("int lists", 2, [] { for (int n = 0; n < 70; n++) for (int d : {1, 2, 5, 20, 60}) history<KI>(n, d, n / 2 + 1); }, [] { history<KI>((int)rin(0, 90), (int)rin(1, 80), (int)rin(0, 40)); });
  H::add("f2 polynomial lists", 2, [] { for (int n = 0; n < 45; n += 3) for (int d : {1, 4, 50}) history<K2>(n, d, n / 2 + 1); }, [] { history<K2>((int)rin(0, 45), (int)rin(1, 60), (int)rin(0, 20)); });
  H::add("fp polynomial lists", 2, [] { for (int n = 0; n < 45; n += 3) for (int d : {1, 4, 50}) history<KP>(n, d, n / 2 + 1); }, [] { history<KP>((int)rin(0, 45), (int)rin(1, 60), (int)rin(0, 20)); });
  auto fixdiv = [](auto k, int lim) { typedef decltype(k) K; for (int u = 0; u < 2; u++) { divisors<K>({}, u); for (int a = 1; a < 4; a++) { divisors<K>({{0, a}}, u); for (int b = 1; b < 3; b++) { divisors<K>({{0, a}, {1, b}}, u); divisors<K>({{0, a}, {1, b}, {2, 1}}, u); divisors<K>({{2, a}, {0, b}, {1, 1}}, u); if (lim) divisors<K>({{0, a}, {1, b}, {2, 2}, {3, 1}}, u); } } } };
  auto rnddiv = [](auto k) { typedef decltype(k) K; std::vector<std::pair<int, int>> f; std::set<int> s; int n = (int)rin(1, 4); ll nd = 1; for (int i = 0; i < n; i++) { int e = (int)rin(0, 5); if (s.count(e)) continue; s.insert(e); int m = (int)rin(1, n > 2 ? 2 : 6 - n); f.push_back({e, m}); nd *= m + 1; } divisors<K>(f, rnd() % 3 == 0); };
  H::add("divisors of integers", 2, [=] { fixdiv(KI(), 1); divisors<KI>({{0, 12}}, 0); divisors<KI>({{11, 1}}, 0); divisors<KI>({{11, 1}}, 1); divisors<KI>({{8, 1}, {1, 1}}, 0); }, [=] { rnddiv(KI()); });
  H::add("divisors of f2 polynomials", 1, [=] { fixdiv(K2(), 0); }, [=] { rnddiv(K2()); });
  H::add("divisors of fp polynomials", 1, [=] { fixdiv(KP(), 0); }, [=] { rnddiv(KP()); });
  H::add("powers of a unit", 1, [] { for (int u : {1, -1}) for (int e : {-2147483647, -3, -2, -1, 0, 1, 2, 3, 2147483647}) { CASE("unit %d to the power %d", u, e); tfacinfo<int> x; x.insert_unit(u); x.exp_all(e); int g = 0; CHECK(x.get_unit(g) && g == (e % 2 ? u : 1)); } CASE("power of the most negative exponent"); tfacinfo<int> x; x.insert_unit(-1); CHECK(throws([&] { x.exp_all((int)0x80000000); })); }, [] {});
  return H::run(c, v);
}
