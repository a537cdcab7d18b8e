// Oracle matrices over a field K of ext.h; p == 0: the rationals, an element being {num, den} in lowest terms, zero the empty vector
#pragma once
#include "ext.h"
#include <numeric>
typedef std::vector<std::vector<Q>> MX;
static inline Q rat(__int128 n, __int128 d) { if (d < 0) n = -n, d = -d; __int128 a = n < 0 ? -n : n, b = d; while (b) { __int128 t = a % b; a = b; b = t; } if (n == 0) return Q(); n /= a; d /= a; if (n > 4000 || n < -4000 || d > 4000) throw 1; return Q{(ll_)n, (ll_)d}; }
static inline Q fadd(const Q &a, const Q &b, const K &k) { if (k.p) return kadd(a, b, k); if (a.empty()) return b; if (b.empty()) return a; return rat((__int128)a[0] * b[1] + (__int128)b[0] * a[1], (__int128)a[1] * b[1]); }
static inline Q fneg(const Q &a, const K &k) { if (k.p) return ksub(Q(), a, k); return a.empty() ? a : Q{-a[0], a[1]}; }
static inline Q fsub(const Q &a, const Q &b, const K &k) { return fadd(a, fneg(b, k), k); }
static inline Q fmul(const Q &a, const Q &b, const K &k) { if (k.p) return kmul(a, b, k); if (a.empty() || b.empty()) return Q(); return rat((__int128)a[0] * b[0], (__int128)a[1] * b[1]); }
static inline Q finv(const Q &a, const K &k) { return k.p ? kinv(a, k) : rat(a[1], a[0]); }
static inline Q fone(const K &k) { return k.p ? kint(1, k) : Q{1, 1}; }
static inline int mr(const MX &a) { return (int)a.size(); }
static inline int mc(const MX &a) { return (int)a[0].size(); }
static inline MX mzero(int r, int c) { return MX(r, std::vector<Q>(c)); }
static inline MX mid(int n, const K &k) { MX a = mzero(n, n); for (int i = 0; i < n; i++) a[i][i] = fone(k); return a; }
static inline MX madd(const MX &a, const MX &b, const K &k) { MX r(a); for (int i = 0; i < mr(a); i++) for (int j = 0; j < mc(a); j++) r[i][j] = fadd(a[i][j], b[i][j], k); return r; }
static inline MX msub(const MX &a, const MX &b, const K &k) { MX r(a); for (int i = 0; i < mr(a); i++) for (int j = 0; j < mc(a); j++) r[i][j] = fsub(a[i][j], b[i][j], k); return r; }
static inline MX msc(const MX &a, const Q &e, const K &k) { MX r(a); for (auto &v : r) for (auto &x : v) x = fmul(x, e, k); return r; }
static inline MX mmul(const MX &a, const MX &b, const K &k) { MX r = mzero(mr(a), mc(b)); for (int i = 0; i < mr(a); i++) for (int j = 0; j < mc(b); j++) for (int l = 0; l < mc(a); l++) if (!a[i][l].empty() && !b[l][j].empty()) r[i][j] = fadd(r[i][j], fmul(a[i][l], b[l][j], k), k); return r; }
static inline MX mtr(const MX &a) { MX r = mzero(mc(a), mr(a)); for (int i = 0; i < mr(a); i++) for (int j = 0; j < mc(a); j++) r[j][i] = a[i][j]; return r; }
// reduced row echelon form with its rank and the determinant factor
static inline MX mrref(MX a, const K &k, int &rank, Q &d) { int r = 0; d = fone(k); for (int c = 0; c < mc(a) && r < mr(a); c++) { int p = r; while (p < mr(a) && a[p][c].empty()) p++; if (p == mr(a)) { d = Q(); continue; } if (p != r) { std::swap(a[p], a[r]); d = fneg(d, k); } Q iv = finv(a[r][c], k); d = fmul(d, a[r][c], k); for (auto &x : a[r]) x = fmul(x, iv, k); for (int i = 0; i < mr(a); i++) if (i != r && !a[i][c].empty()) { Q m = a[i][c]; for (int j = 0; j < mc(a); j++) a[i][j] = fsub(a[i][j], fmul(m, a[r][j], k), k); } r++; } rank = r; if (r < mr(a)) d = Q(); return a; }
static inline MX mrref(const MX &a, const K &k) { int r; Q d; return mrref(a, k, r, d); }
static inline int mrank(const MX &a, const K &k) { int r; Q d; mrref(a, k, r, d); return r; }
static inline Q mdet(const MX &a, const K &k) { int r; Q d; mrref(a, k, r, d); return d; }
static inline MX mpow(MX a, long long e, const K &k) { MX r = mid(mr(a), k); for (; e > 0; e >>= 1) { if (e & 1) r = mmul(r, a, k); a = mmul(a, a, k); } return r; }
static inline MX mpaste(const MX &a, const MX &b) { MX r(a); for (int i = 0; i < mr(a); i++) r[i].insert(r[i].end(), b[i].begin(), b[i].end()); return r; }
static inline MX msub_(const MX &a, int c0, int c1) { MX r; for (auto &v : a) r.push_back(std::vector<Q>(v.begin() + c0, v.begin() + c1)); return r; }
static inline MX minv(const MX &a, const K &k) { return msub_(mrref(mpaste(a, mid(mr(a), k)), k), mr(a), 2 * mr(a)); }
static inline bool mechelon(const MX &a) { int last = -1; for (auto &v : a) { int l = 0; while (l < (int)v.size() && v[l].empty()) l++; if (l == (int)v.size()) { last = l; continue; } if (l <= last) return false; last = l; } return true; }
static inline std::string mstr(const MX &a) { std::string s = "["; for (auto &v : a) { for (auto &x : v) { s += qs(x) + " "; } s += "; "; } s += "]"; return s.size() > 700 ? s.substr(0, 700) + "..." : s; }
static inline bool mzerop(const MX &a) { for (auto &v : a) for (auto &x : v) if (!x.empty()) return false; return true; }
// a random matrix, biased to low rank, zero columns and rows
static inline MX mrand(int r, int c, const K &k, Q (*el)(const K &)) {
  int mode = H::rnd() % 6; MX a = mzero(r, c);
  if (mode == 0) { int m = 1 + (int)(H::rnd() % (std::max(r, c))); MX x = mzero(r, m), y = mzero(m, c); for (auto &v : x) for (auto &e : v) e = el(k); for (auto &v : y) for (auto &e : v) e = el(k); a = mmul(x, y, k); }
  else for (auto &v : a) for (auto &e : v) if (mode != 1 || H::rnd() % 3 == 0) e = el(k);
  if (mode == 2) { int j = H::rnd() % c; for (auto &v : a) v[j] = Q(); }
  if (mode == 3) a[H::rnd() % r].assign(c, Q());
  if (mode == 4 && r > 1) a[H::rnd() % r] = a[H::rnd() % r];
  if (mode == 5 && H::rnd() % 2) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (j < i) a[i][j] = Q();
  return a;
}
