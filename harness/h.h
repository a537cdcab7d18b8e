// Shared support for the conformance harnesses: they run the real /repo code
// (compiled with ASan+UBSan) against oracles written independently of it.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <exception>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace H {
typedef long long ll;
typedef unsigned long long ull;
typedef __int128 i128;
typedef unsigned __int128 u128;

inline char *cur = nullptr;
inline const int CURSZ = 1 << 16;
inline std::string outdir;
inline uint64_t seed = 1;
inline double budget = 20, t0 = 0;
inline bool thorough = false;
inline std::atomic<long> evals{0};
inline std::map<std::string, long> sect;
inline std::string section = "start";
inline std::vector<std::string> samples;
inline long sect_n = 0;

inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline double elapsed() { return now() - t0; }

inline uint64_t rs[2];
inline uint64_t rnd() { // xorshift128+
  uint64_t a = rs[0], b = rs[1];
  rs[0] = b;
  a ^= a << 23;
  a ^= a >> 17;
  a ^= b ^ (b >> 26);
  rs[1] = a;
  return a + b;
}
inline void reseed(uint64_t s) {
  uint64_t z = s * 0x9E3779B97F4A7C15ull + 0x1234567;
  for (int i = 0; i < 2; i++) {
    z += 0x9E3779B97F4A7C15ull;
    uint64_t x = z;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    rs[i] = x ^ (x >> 31);
  }
  if (!rs[0] && !rs[1]) rs[0] = 1;
}
inline ll rin(ll lo, ll hi) { // inclusive
  return lo + (ll)(rnd() % (uint64_t)(hi - lo + 1));
}
// integers biased to boundary values
inline ll rint(ll lo, ll hi) {
  switch (rnd() % 8) {
  case 0: return rin(lo, hi);
  case 1: { ll k = rin(0, 4); return lo + k <= hi ? lo + k : hi; }
  case 2: { ll k = rin(0, 4); return hi - k >= lo ? hi - k : lo; }
  case 3: case 4: { // random magnitude
    int b = (int)rin(0, 62);
    ll v = (ll)(rnd() & ((1ull << b) - 1));
    if (rnd() & 1) v = -v;
    return v < lo || v > hi ? rin(lo, hi) : v; }
  case 5: { ll v = (1ll << rin(0, 62)) + rin(-2, 2); if (rnd() & 1) v = -v; return v < lo || v > hi ? rin(lo, hi) : v; }
  default: { ll v = rin(-20, 20); return v < lo || v > hi ? rin(lo, hi) : v; }
  }
}

inline void CASE(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(cur, CURSZ - 1, fmt, ap);
  va_end(ap);
  evals.fetch_add(1, std::memory_order_relaxed);
  if (sect_n < 2) samples.push_back(section + ": " + std::string(cur).substr(0, 300));
  sect_n++;
}
inline void summary();
[[noreturn]] inline void FAIL(const char *fmt, ...) {
  char msg[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  FILE *f = fopen((outdir + "/failure.txt").c_str(), "w");
  fprintf(f, "section: %s\ncase: %s\nfailure: %s\n", section.c_str(), cur, msg);
  fclose(f);
  fprintf(stderr, "FAILURE [%s] %s -- %s\n", section.c_str(), cur, msg);
  fflush(stderr);
  _exit(3);
}
#define CHECK(c, ...) do { if (!(c)) { std::string m_ = std::string("expected " #c "  "); char b_[4096]; snprintf(b_, sizeof b_, "" __VA_ARGS__); H::FAIL("%s%s (line %d)", m_.c_str(), b_, __LINE__); } } while (0)

// true if f throws a C++ exception
template <class F> inline bool throws(F f) {
  try { f(); } catch (std::exception &) { return true; } catch (...) { return true; }
  return false;
}
// a case that must not throw
#define NOTHROW(stmt) do { try { stmt; } catch (std::exception &e_) { H::FAIL("unexpected exception: %s (line %d)", e_.what(), __LINE__); } catch (...) { H::FAIL("unexpected exception (line %d)", __LINE__); } } while (0)

struct Section {
  const char *name; double weight; std::function<void()> once; std::function<void()> rnd;
};
inline std::vector<Section> sections;
// once: exhaustive/fixed part, always run completely.  loop: run repeatedly for its share of the time.
inline void add(const char *name, double w, std::function<void()> once, std::function<void()> loop) {
  sections.push_back({name, w, once, loop});
}
inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
inline void summary() {
  FILE *f = fopen((outdir + "/summary.json").c_str(), "w");
  fprintf(f, "{\"evaluations\": %ld, \"seed\": %llu, \"wall_s\": %.2f, \"sections\": {", evals.load(), (ull)seed, elapsed());
  bool first = true;
  for (auto &p : sect) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", p.first.c_str(), p.second); first = false; }
  fprintf(f, "}, \"samples\": [");
  for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(samples[i]).c_str());
  fprintf(f, "]}\n");
  fclose(f);
}
inline int run(int argc, char **argv) {
  outdir = argc > 1 ? argv[1] : "/tmp";
  seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  budget = argc > 3 ? atof(argv[3]) : 5;
  thorough = argc > 4 && !strcmp(argv[4], "thorough");
  const char *only = argc > 5 ? argv[5] : nullptr;
  int fd = open((outdir + "/case.txt").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, CURSZ)) { perror("case file"); return 2; }
  cur = (char *)mmap(0, CURSZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  t0 = now();
  std::thread([] {
    long last = -1; double since = now();
    for (;;) {
      usleep(500000);
      long e = evals.load();
      if (e != last) { last = e; since = now(); }
      else if (now() - since > 90) FAIL("no result after 90 s: the call does not terminate in reasonable time");
      FILE *f = fopen("/proc/self/statm", "r");
      long a = 0, b = 0;
      if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
      if (b * 4096.0 > 10e9) FAIL("memory use of the harness exceeded 10 GB in this call");
    }
  }).detach();
  double tw = 0;
  for (auto &s : sections) tw += s.weight;
  try {
    for (auto &s : sections) {
      if (only && strcmp(only, s.name)) continue;
      section = s.name; sect_n = 0;
      long e0 = evals;
      reseed(seed * 1000003 + std::hash<std::string>()(s.name));
      strcpy(cur, "(none yet)");
      if (s.once) s.once();
      double share = budget * s.weight / tw, t1 = now();
      if (s.rnd) do { for (int i = 0; i < 16; i++) s.rnd(); } while (now() - t1 < share);
      sect[s.name] += evals - e0;
    }
  } catch (std::exception &e) { FAIL("uncaught exception: %s", e.what()); }
  catch (...) { FAIL("uncaught exception"); }
  summary();
  fflush(stdout);
  _exit(0);
}
} // namespace H
using H::CASE; using H::rin; using H::rint; using H::rnd; using H::ll; using H::ull; using H::i128; using H::u128;
