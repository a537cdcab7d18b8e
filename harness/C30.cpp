#include "h.h"
#include "spffl/containers/tstack.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/polynomials/f2_poly_t.h"
#include <vector>
#include <string>
#include <typeinfo>
using namespace H;
using spffl::intmath::intmod_t;
using spffl::polynomials::f2_poly_t;
template <class T> static T val(long long v);
template <> int val<int>(long long v) { return (int)v; }
template <> intmod_t val<intmod_t>(long long v) { return intmod_t((int)(v & 0x3fffffff), 1000000007); }
template <> f2_poly_t val<f2_poly_t>(long long v) { return f2_poly_t::from_base_rep((uint64_t)v * 0x9e3779b97f4a7c15ull); }
template <> std::string val<std::string>(long long v) { return std::string((size_t)(v % 40), 'x') + std::to_string(v); }
// pops everything and compares with the model, then pushes it back
template <class T> static void drain(tstack<T> &s, const std::vector<T> &m, const char *w) {
  T x = val<T>(1);
  for (size_t i = m.size(); i-- > 0;) { if (!s.pop(x)) H::FAIL("%s: pop reports empty, %zu elements expected", w, i + 1); if (x != m[i]) H::FAIL("%s: element %zu differs from the one pushed", w, i); }
  x = val<T>(77); for (int k = 0; k < 3; k++) { if (s.pop(x)) H::FAIL("%s: pop of an empty stack reports success", w); if (x != val<T>(77)) H::FAIL("%s: failed pop changed its output", w); }
  for (auto &e : m) s.push(e);
}
template <class T> static void seq(int n, unsigned long long plan) {
  tstack<T> *st[3] = {new tstack<T>, new tstack<T>, new tstack<T>}; std::vector<T> m[3]; long long c = 0; std::string log;
  int bias = (int)(plan % 5);
  for (int i = 0; i < n; i++) {
    int k = (int)(rnd() % 3), op = (int)(rnd() % 16); if (log.size() < 600) { log += (char)('a' + k); log += std::to_string(op); log += ' '; }
    if (i % 64 == 0 || i == n - 1) CASE("%s ops (stack letter, op): %s, %d operations", typeid(T).name(), log.c_str(), i);
    if (op < 6 + bias) { T v = val<T>(++c); st[k]->push(v); m[k].push_back(v); }
    else if (op < 12) { T x = val<T>(5); bool r = st[k]->pop(x); CHECK(r == !m[k].empty()); if (r) { CHECK(x == m[k].back()); m[k].pop_back(); } else CHECK(x == val<T>(5)); }
    else if (op == 12) { int j = (int)(rnd() % 3); tstack<T> &r = (*st[k] = *st[j]); m[k] = m[j]; CHECK(&r == st[k]); }
    else if (op == 13) { int j = (int)(rnd() % 3); tstack<T> *t = new tstack<T>(*st[j]); std::vector<T> mm = m[j]; delete st[k]; st[k] = t; m[k] = mm; }
    else if (op == 14) { tstack<T> &a = *st[k]; a = a; }
    else if (i % 7 == 0) drain(*st[k], m[k], "drain");
  }
  for (int k = 0; k < 3; k++) { drain(*st[k], m[k], "end"); drain(*st[k], m[k], "end again"); delete st[k]; }
}
template <class T> static void fill(int n) {
  CASE("%s: push %d elements, then pop all", typeid(T).name(), n);
  tstack<T> s; std::vector<T> m; for (int i = 0; i < n; i++) { T v = val<T>(i + 1); s.push(v); m.push_back(v); }
  tstack<T> c(s), d; d.push(val<T>(3)); d = s; drain(s, m, "filled"); drain(c, m, "copy constructed"); drain(d, m, "assigned");
  T x = val<T>(0); if (n) { CHECK(c.pop(x)); drain(s, m, "source after popping the copy"); drain(d, m, "assigned, after popping the copy"); }
}
int main(int c, char **v) {
  H::add("fill to every size 0..130 and drain", 1, [] { for (int n = 0; n <= 130; n++) { fill<int>(n); fill<intmod_t>(n); fill<f2_poly_t>(n); fill<std::string>(n); } for (int n : {999, 1000, 1001, 5000}) fill<int>(n); }, nullptr);
  H::add("random operation sequences", 3, nullptr, [] { int n = (int)rin(5, rnd() % 8 ? 120 : 1500); auto p = rnd(); switch (rnd() % 4) { case 0: seq<int>(n, p); break; case 1: seq<intmod_t>(n, p); break; case 2: seq<f2_poly_t>(n, p); break; default: seq<std::string>(n, p); } });
  return H::run(c, v);
}
