#include "h.h"
#include "spffl/intmath/log2.h"
#include "spffl/intmath/log10.h"
#include "spffl/bits/count_bits.h"
using namespace spffl::intmath;
static void w16(unsigned n) {
  CASE("find_msb_16(0x%x)", n);
  unsigned r = find_msb_16((unsigned short)n);
  CHECK(r < 16 && (n >> r) == 1, "got %u", r);
}
static void w32(unsigned n) {
  if (!n) return;
  unsigned e = 31 - __builtin_clz(n), l = __builtin_ctz(n);
  CASE("find_msb_32(0x%x)", n);
  unsigned r = find_msb_32(n);
  CHECK(r == e, "got %u", r);
  CASE("find_lsb_32(0x%x)", n);
  r = find_lsb_32(n);
  CHECK(r == l, "got %u", r);
  CASE("calc_log2_unsigned_floor(0x%x)", n);
  r = calc_log2_unsigned_floor(n);
  CHECK(r == e, "got %u", r);
  CASE("calc_log2_unsigned_ceil(0x%x)", n);
  r = calc_log2_unsigned_ceil(n);
  CHECK(r == e + ((n & (n - 1)) != 0), "got %u", r);
  CASE("calc_log10_unsigned_floor(%u)", n);
  r = calc_log10_unsigned_floor(n);
  unsigned d = 0; for (ull p = 10; p <= n; p *= 10) d++;
  CHECK(r == d, "got %u, expected %u", r, d);
}
static void w64(ull n) {
  if (!n) return;
  unsigned e = 63 - __builtin_clzll(n), l = __builtin_ctzll(n);
  CASE("find_msb_64(0x%llx)", n);
  unsigned r = find_msb_64(n);
  CHECK(r == e, "got %u", r);
  CASE("find_lsb_64(0x%llx)", n);
  r = find_lsb_64(n);
  CHECK(r == l, "got %u", r);
  CASE("calc_log2_unsigned_ll_floor(0x%llx)", n);
  ull q = calc_log2_unsigned_ll_floor(n);
  CHECK(q == e, "got %llu", q);
  CASE("calc_log2_unsigned_ll_ceil(0x%llx)", n);
  q = calc_log2_unsigned_ll_ceil(n);
  CHECK(q == e + ((n & (n - 1)) != 0), "got %llu", q);
}
static ull patt() { ull x = rnd(); switch (rnd() % 5) { case 0: return x; case 1: return x >> rin(0, 63); case 2: return x << rin(0, 63); case 3: return (1ull << rin(0, 63)) + rin(-1, 1); default: return (1ull << rin(0, 63)) | (1ull << rin(0, 63)); } }
static void bits(int n, int mode) {
  unsigned char *p = (unsigned char *)malloc(n ? n : 1);
  int w = 0;
  for (int i = 0; i < n; i++) { p[i] = mode == 0 ? rnd() : mode == 1 ? 0xff : mode == 2 ? 1 << (rnd() & 7) : 0; w += __builtin_popcount(p[i]); }
  CASE("count_one_bits of %d bytes, first %d mode %d", n, n ? p[0] : -1, mode);
  int r = spffl::bits::count_one_bits(p, n);
  CHECK(r == w, "got %d, expected %d", r, w);
  free(p);
}
int main(int argc, char **argv) {
  H::add("16-bit", 0, [] { for (unsigned n = 1; n < 65536; n++) { w16(n); w32(n); w64(n); w32(n << 16); w64((ull)n << 16); w64((ull)n << 32); w64((ull)n << 48); } }, nullptr);
  H::add("two-bit-words", 0, [] { for (int i = 0; i < 64; i++) for (int j = 0; j < 64; j++) { ull x = (1ull << i) | (1ull << j); w64(x); w64(x - 1); w64(x + 1); w64(~x); if (x >> 32 == 0) { w32(x); w32(x - 1); w32(x + 1); } } 
    for (ull p = 10; p < (1ull << 32); p *= 10) for (int d = -2; d <= 2; d++) w32(p + d); w32(~0u); w64(~0ull); }, nullptr);
  H::add("bytes", 0, [] { for (int v = 0; v < 256; v++) { unsigned char c = v; CASE("count_one_bits of the byte %d", v); CHECK(spffl::bits::count_one_bits(&c, 1) == __builtin_popcount(v)); } for (int n = 0; n < 300; n++) for (int m = 0; m < 4; m++) bits(n, m); }, nullptr);
  H::add("words", 2, nullptr, [] { ull x = patt(); w64(x); w32((unsigned)x); w32((unsigned)(x >> 32)); });
  H::add("byte-strings", 1, nullptr, [] { bits((int)rin(0, 2000), (int)rin(0, 3)); });
  return H::run(argc, argv);
}
