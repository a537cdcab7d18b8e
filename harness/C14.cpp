#define EXT_FPN
#include "ext_t.h"
using namespace H; typedef TPN T; using spffl::polynomials::fpn_poly_t;
static void scal(const X &a, int c, const K &k) { CASE("a=%s times %d over %s", xs(a).c_str(), c, ks(k).c_str()); fpn_poly_t x = mkx<T>(a, k); SAMEX(x * intmod_t(c, (int)k.p), xsc(a, kint(c, k), k)); }
static void root(const X &a, const K &k) {
  CASE("p-th root of the p-th power of %s over %s", xs(a).c_str(), ks(k).c_str()); X b = xpow(a, k.p, k); fpn_poly_t x = mkx<T>(b, k), r; bool g = false; NOTHROW(g = x.pth_root(r)); CHECK(g); SAMEX(r, a);
  size_t p = (rnd() % 3) * k.p + 1 + rnd() % (k.p - 1); if (b.size() <= p) b.resize(p + 1); b[p] = kint(1, k); fpn_poly_t y = mkx<T>(b, k); NOTHROW(g = y.pth_root(r)); CHECK(!g);
}
int main(int c, char **v) {
  return ext_main<T>(1, c, v, [] { for (auto &k : small_fields(1)) for (auto &a : allx(2, k, 30)) { for (int s : {0, 1, 2, 5, -1}) scal(a, s, k); if (k.p < 20) root(a, k); } },
    [] { const K &k = rk(1); scal(xr(5, k), (int)rin(-100, 100), k); const K &k2 = rk(1); if (k2.p < 20) root(xr(3, k2), k2); });
}
