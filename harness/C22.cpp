#include "h.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/random/int_random.h"
using namespace H;
using namespace spffl::bitrand;
typedef uint32_t u32;
// the mixer of Numerical Recipes, written from its description with wide arithmetic
static const uint64_t C1[4] = {0xbaa96887, 0x1e17d32c, 0x03bcdc3c, 0x0f33d1b2}, C2[4] = {0x4b0f3b58, 0xe874f0c3, 0x6955c5a6, 0x55a7ca46};
static uint64_t F(int i, uint64_t r) { uint64_t a = r ^ C1[i], l = a % 65536, h = a / 65536, M = 1ull << 32; uint64_t s = (l * l % M + (M - 1 - h * h % M)) % M; uint64_t t = s / 65536 + s % 65536 * 65536; return ((t ^ C2[i]) + l * h) % M; }
static void mix(u32 &w0, u32 &w1) { uint64_t a = w0, b = w1; for (int i = 0; i < 4; i++) { uint64_t n = a ^ F(i, b); a = b; b = n; } w0 = (u32)a; w1 = (u32)b; }
static void unmix(u32 &w0, u32 &w1) { uint64_t a = w0, b = w1; for (int i = 3; i >= 0; i--) { uint64_t n = b ^ F(i, a); b = a; a = n; } w0 = (u32)a; w1 = (u32)b; }
static void one(u32 a, u32 b) {
  CASE("state 0x%08x%08x", a, b); u32 x = a, y = b, p = a, q = b; psdes_hash_64(x, y); mix(p, q); CHECK(x == p && y == q); unmix(x, y); CHECK(x == a && y == b);
  x = a; y = b; psdes_hash_64(x, y); CHECK(x == p && y == q);
  uint64_t st = ((uint64_t)a << 32) | b;
  u32 s0 = a, s1 = b; CHECK(iran32_r(s0, s1) == q); CHECK((((uint64_t)s0 << 32) | s1) == st + 1);
  s0 = a; s1 = b; u32 o0 = 1, o1 = 2; iran64_r(o0, o1, s0, s1); CHECK(o0 == p && o1 == q); CHECK((((uint64_t)s0 << 32) | s1) == st + 1);
  s0 = a; s1 = b; float f = fran32_r(s0, s1); CHECK(f >= 0.0f && f < 1.0f); CHECK((((uint64_t)s0 << 32) | s1) == st + 1);
  CHECK(f == (float)((double)(q & 0x7fffff) / 8388608.0));
}
static void stream(u32 a, u32 b, bool one_arg, int n) {
  CASE("seeded with 0x%08x 0x%08x (%s), %d draws", a, b, one_arg ? "sran32" : "sran32b", n);
  if (one_arg) { a = 0; sran32(b); } else sran32b(a, b);
  uint64_t st = ((uint64_t)a << 32) | b;
  for (int i = 0; i < n; i++, st++) {
    u32 p = (u32)(st >> 32), q = (u32)st; mix(p, q);
    switch (rnd() % 5) {
    case 0: CHECK(iran32() == q); break;
    case 1: { u32 x, y; iran64(x, y); CHECK(x == p && y == q); break; }
    case 2: CHECK(fran32() == (float)((double)(q & 0x7fffff) / 8388608.0)); break;
    case 3: CHECK(spffl::random::get_random_uint32() == q); break;
    default: CHECK((u32)spffl::random::get_random_int() == q);
    }
  }
  // the same seed gives the same stream again
  if (one_arg) sran32(b); else sran32b(a, b);
  u32 p = a, q = b; mix(p, q); CHECK(iran32() == q);
  if (one_arg) sran32(b); else sran32b(a, b);
  uint64_t v = spffl::random::get_random_uint64(); st = (((uint64_t)a << 32) | b); u32 p2 = (u32)((st + 1) >> 32), q2 = (u32)(st + 1); mix(p2, q2); CHECK((u32)v == q || (u32)v == q2); CHECK((u32)(v >> 32) == q || (u32)(v >> 32) == q2);
  p2 = (u32)((st + 2) >> 32), q2 = (u32)(st + 2); mix(p2, q2); CHECK(iran32() == q2);
}
int main(int c, char **v) {
  H::add("documented outputs", 1, [] {
    static const u32 T[6][4] = {{2, 0xfffffffc, 0x57733ef0, 0x998adaea}, {2, 0xfffffffd, 0xe486359a, 0x3e59f158}, {2, 0xfffffffe, 0x624cb368, 0x0dd3090c}, {2, 0xffffffff, 0x5e920cb5, 0xbfc315ce}, {3, 0, 0xadcd49ee, 0xf6f27d08}, {3, 1, 0x786f6a22, 0xd7df7670}};
    u32 s0 = 2, s1 = 0xfffffffc; for (auto &t : T) { CASE("documented example, state 0x%08x%08x", t[0], t[1]); CHECK(s0 == t[0] && s1 == t[1]); u32 a, b; iran64_r(a, b, s0, s1); CHECK(a == t[2] && b == t[3]); }
    CHECK(s0 == 3 && s1 == 2); }, nullptr);
  H::add("mixer and reentrant draws", 3, [] { u32 e[] = {0, 1, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}; for (u32 a : e) for (u32 b : e) one(a, b); for (int i = 0; i < 32; i++) for (int j = 0; j < 32; j++) { one(1u << i, 1u << j); one(~(1u << i), ~(1u << j)); } for (int r = 0; r < 4; r++) for (u32 l = 0; l < 65536; l += 7) one(l, (u32)(C1[r] ^ l)); },
    [] { for (int k = 0; k < 50; k++) one((u32)rnd(), rnd() % 8 ? (u32)rnd() : 0xffffffffu - (u32)(rnd() % 3)); });
  H::add("seeded streams", 1, [] { for (u32 s : {0u, 1u, 2u, 0xfffffff0u, 0xffffffffu, 0x80000000u}) for (int o = 0; o < 2; o++) { stream(0, s, true, 60); stream(7, s, false, 60); stream(0xffffffffu, s, false, 60); } }, [] { stream((u32)rnd(), rnd() % 4 ? (u32)rnd() : 0xffffffffu - (u32)(rnd() % 40), rnd() % 2, 50); });
  return H::run(c, v);
}
