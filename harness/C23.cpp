#include "f2.h"
#include "fp.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/random/intmod_random.h"
using namespace H;
using namespace spffl::random;
using namespace spffl::polynomials;
// The generator's word stream is supplied here, so that every state of the generator can occur.
static std::vector<uint32_t> words; static size_t wpos; static int wmode;
static uint32_t word() {
  static const uint32_t E[] = {0, 1, 0xffffffffu, 0x80000000u, 0x7fffffffu, 0x80000001u, 0x20000u, 0xfffdffffu, 0xfffffffeu, 46337, 65537};
  uint32_t w = wmode == 0 ? 0 : wmode == 1 ? 0xffffffffu : wmode == 2 ? 0x80000000u : wmode == 3 ? E[rnd() % 11] : (uint32_t)rnd();
  wpos++; return w;
}
namespace spffl::bitrand {
uint32_t iran32() { return word(); }
}
static void im(int m) {
  CASE("intmod_random(%d), generator mode %d", m, wmode);
  if (m < 2) { CHECK(throws([&] { intmod_random(m); })); return; }
  for (int k = 0; k < 4; k++) { intmod_t x; NOTHROW(x = intmod_random(m)); CHECK(x.get_modulus() == m); CHECK(x.get_residue() >= 0 && x.get_residue() < m); }
}
static void fpr(int p, int d) {
  CASE("fp_poly_random(%d, %d), generator mode %d", p, d, wmode);
  if (d < 0) { CHECK(throws([&] { fp_poly_random(p, d); })); return; }
  fp_poly_t x; NOTHROW(x = fp_poly_random(p, d)); CHECK(x.find_degree() == d);
  Q a; for (int i = 0; i <= d; i++) { intmod_t c = x.get_coeff(i); CHECK(c.get_modulus() == p); CHECK(c.get_residue() >= 0 && c.get_residue() < p); a.push_back(c.get_residue()); }
  if (d > 0) CHECK(a[d] != 0);
  SAMEF(x, tr(a));
}
static void f2r(int d) {
  CASE("f2_poly_random(%d), generator mode %d", d, wmode);
  if (d < 0) { CHECK(throws([&] { f2_poly_random(d); })); return; }
  f2_poly_t x; NOTHROW(x = f2_poly_random(d)); CHECK(x.find_degree() == d); CHECK(x.bit_at(d) == 1);
  Q a; for (int i = 0; i <= d; i++) { int b = x.bit_at(i); CHECK(b == 0 || b == 1); a.push_back(b); }
  SAMEP(x, tr(a));
}
static void fpm(const Q &m, int p) {
  CASE("fp_polymod_random(%s over Z/%d), generator mode %d", qs(m).c_str(), p, wmode);
  fp_poly_t mm = mkf(m, p);
  if (dg(m) < 1) { CHECK(throws([&] { fp_polymod_random(mm); })); return; }
  fp_polymod_t x; NOTHROW(x = fp_polymod_random(mm)); fp_poly_t r = x.get_residue(), y = x.get_modulus();
  SAMEF(y, m); CHECK(r.find_degree() < dg(m));
  Q a; for (int i = 0; i < dg(m); i++) { intmod_t c = r.get_coeff(i); CHECK(c.get_modulus() == p); a.push_back(c.get_residue()); }
  SAMEF(r, tr(a));
}
static void f2m(const Q &m) {
  CASE("f2_polymod_random(%s), generator mode %d", bs(m).c_str(), wmode);
  f2_poly_t mm = mkp(m);
  if (dg(m) < 1) { CHECK(throws([&] { f2_polymod_random(mm); })); return; }
  f2_polymod_t x; NOTHROW(x = f2_polymod_random(mm)); f2_poly_t r = x.get_residue(), y = x.get_modulus();
  SAMEP(y, m); CHECK(r.find_degree() < dg(m));
  Q a; for (int i = 0; i < dg(m); i++) a.push_back(r.bit_at(i));
  SAMEP(r, tr(a));
}
static void f2n(const Q &m, int d, int e) {
  CASE("f2n_poly_random(%s, %d) / f2n_polymod_random(degree %d), generator mode %d", bs(m).c_str(), d, e, wmode);
  f2_poly_t mm = mkp(m);
  if (d < 0) { CHECK(throws([&] { f2n_poly_random(mm, d); })); return; }
  f2n_poly_t x; NOTHROW(x = f2n_poly_random(mm, d)); CHECK(x.find_degree() == d);
  for (int i = 0; i <= d; i++) { f2_polymod_t c = x.get_coeff(i); CHECK(c.get_modulus() == mm); CHECK(c.get_residue().find_degree() < dg(m)); if (i == d && d > 0) CHECK(c != 0); }
  f2_poly_t one(1); f2_polymod_t om1(one, mm); f2n_poly_t om; om = f2n_poly_t(om1); om.set_coeff(e, om1); CHECK(om.find_degree() == e);
  f2n_polymod_t y; NOTHROW(y = f2n_polymod_random(mm, om)); CHECK(y.get_modulus() == om); CHECK(y.get_residue().find_degree() < e);
}
static void fixed() {
  static const int D[] = {-2147483647 - 1, -1, 0, 1, 2, 3, 31, 32, 62, 63, 64, 65, 127, 128, 129, 200};
  for (wmode = 0; wmode < 4; wmode++) {
    for (int m : {-2147483647 - 1, -7, -1, 0, 1, 2, 3, 4, 10, 46337, 65536, 2147483647}) im(m);
    for (int d : D) f2r(d);
    for (int p : {2, 3, 7, 101, 46349, 2147483647}) for (int d : {-3, -1, 0, 1, 2, 5, 40}) fpr(p, d);
    for (int d : {-1, 0, 1, 2, 63, 64, 65, 130}) { Q m(d + 1); if (d >= 0) m[d] = m[0] = 1; f2m(m); if (d >= 0) { m[0] = 0; m[d] = 1; f2m(m); } }
    for (int p : {2, 3, 101}) for (int d : {-1, 0, 1, 2, 5}) { Q m(d + 1); if (d >= 0) m[d] = p - 1; fpm(m, p); }
    for (int d : {-1, 0, 1, 2, 4}) for (int e : {1, 2, 3}) { f2n(Q{1, 1}, d, e); f2n(Q{1, 1, 1}, d, e); f2n(Q{1, 1, 0, 1}, d, e); }
  }
}
static void rand1() {
  wmode = 3 + rnd() % 2;
  switch (rnd() % 6) {
  case 0: im((int)(rnd() % 2 ? rin(2, 12) : rin(2, 2147483647))); break;
  case 1: f2r((int)rin(0, 260)); break;
  case 2: fpr(rp(), (int)rin(0, 20)); break;
  case 3: f2m(rq(200)); break;
  case 4: { int p = PR[rnd() % 7]; fpm(rf(6, p), p); break; }
  case 5: { Q m; do m = rq(5); while (dg(m) < 1); f2n(m, (int)rin(0, 6), (int)rin(1, 4)); break; }
  }
}
int main(int c, char **v) { H::add("random elements", 1, fixed, rand1); return H::run(c, v); }
