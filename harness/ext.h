// Oracle polynomials over a field or ring K = F_p[y]/(m): vectors of reduced Q, least significant first, no trailing zeros
#pragma once
#include "h.h"
#include "poly.h"
struct K { ll_ p; Q m; bool simple() const { return m.empty(); } };          // m empty: K = F_p (elements are constants)
typedef std::vector<Q> X;
static inline Q kred(const Q &a, const K &k) { return k.simple() ? (dg(a) > 0 ? Q{a[0]} : a) : qmod(a, k.m, k.p); }
static inline Q kadd(const Q &a, const Q &b, const K &k) { return qadd(a, b, k.p); }
static inline Q ksub(const Q &a, const Q &b, const K &k) { return qsub(a, b, k.p); }
static inline Q kmul(const Q &a, const Q &b, const K &k) { Q c = qmul(a, b, k.p); return k.simple() ? c : qmod(c, k.m, k.p); }
static inline Q kinv(const Q &a, const K &k) { return k.simple() ? (a.empty() ? Q() : Q{inv(a[0], k.p)}) : qinv(a, k.m, k.p); }
static inline Q kint(ll_ v, const K &k) { v = md(v, k.p); return v ? kred(Q{v}, k) : Q(); }
static inline Q kpow(Q a, long long e, const K &k) { Q r = kint(1, k); for (; e > 0; e >>= 1) { if (e & 1) r = kmul(r, a, k); a = kmul(a, a, k); } return r; }
static inline X xtr(X a) { while (!a.empty() && a.back().empty()) a.pop_back(); return a; }
static inline int xdg(const X &a) { return (int)a.size() - 1; }
static inline int xdg0(const X &a) { return a.empty() ? 0 : (int)a.size() - 1; }
static inline Q xc(const X &a, long i) { return i >= 0 && i < (long)a.size() ? a[i] : Q(); }
static inline X xadd(const X &a, const X &b, const K &k) { X r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = kadd(xc(a, i), xc(b, i), k); return xtr(r); }
static inline X xsub(const X &a, const X &b, const K &k) { X r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = ksub(xc(a, i), xc(b, i), k); return xtr(r); }
static inline X xsc(const X &a, const Q &c, const K &k) { X r(a); for (auto &x : r) x = kmul(x, c, k); return xtr(r); }
static inline X xmul(const X &a, const X &b, const K &k) { if (a.empty() || b.empty()) return X(); X r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = kadd(r[i + j], kmul(a[i], b[j], k), k); return xtr(r); }
static inline X xone(const K &k) { return xtr(X{kint(1, k)}); }
static inline X xpow(const X &a, long e, const K &k) { X r = xone(k); while (e-- > 0) r = xmul(r, a, k); return r; }
static inline void xdm(const X &a, const X &b, const K &k, X &q, X &r) { r = a; q = X(a.size() >= b.size() ? a.size() - b.size() + 1 : 0); Q li = kinv(b.back(), k); while (!r.empty() && r.size() >= b.size()) { size_t s = r.size() - b.size(); Q c = kmul(r.back(), li, k); q[s] = c; for (size_t i = 0; i < b.size(); i++) r[i + s] = ksub(r[i + s], kmul(c, b[i], k), k); r = xtr(r); } q = xtr(q); }
static inline X xmod(const X &a, const X &b, const K &k) { X q, r; xdm(a, b, k, q, r); return r; }
static inline X xmonic(const X &a, const K &k) { return a.empty() ? a : xsc(a, kinv(a.back(), k), k); }
static inline X xgcd(X a, X b, const K &k) { while (!b.empty()) { X r = xmod(a, b, k); a = b; b = r; } return xmonic(a, k); }
static inline X xinv(const X &a, const X &b, const K &k) { X r0 = b, r1 = xmod(a, b, k), s0, s1 = xone(k); while (!r1.empty()) { X q, r; xdm(r0, r1, k, q, r); r0 = r1; r1 = r; X t = xsub(s0, xmul(q, s1, k), k); s0 = s1; s1 = t; } if (xdg(r0) != 0) return X(); return xmod(xsc(s0, kinv(r0[0], k), k), b, k); }
static inline X xder(const X &a, const K &k) { X r; for (size_t i = 1; i < a.size(); i++) r.push_back(qsc(a[i], (ll_)i % k.p, k.p)); return xtr(r); }
static inline Q xev(const X &a, const Q &x, const K &k) { Q r; for (size_t i = a.size(); i-- > 0;) r = kadd(kmul(r, x, k), a[i], k); return r; }
static inline X xpowmod(X a, long long e, const X &m, const K &k) { X r = xmod(xone(k), m, k); a = xmod(a, m, k); for (; e > 0; e >>= 1) { if (e & 1) r = xmod(xmul(r, a, k), m, k); a = xmod(xmul(a, a, k), m, k); } return r; }
// order of the coefficient strings read from the top
static inline int xcmp(const X &a, const X &b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; for (size_t i = a.size(); i-- > 0;) { int c = qcmp(a[i], b[i]); if (c) return c; } return 0; }
static inline std::string xs(const X &a) { std::string s; if (a.empty()) return "0"; for (size_t i = a.size(); i-- > 0;) { s += "(" + qs(a[i]) + ")"; if (i) s += ":"; } return s.size() > 500 ? s.substr(0, 500) + "..." : s; }
static inline std::string ks(const K &k) { return k.simple() ? "F" + std::to_string(k.p) : "F" + std::to_string(k.p) + "[y]/" + qs(k.m); }
// k-th element in base-p order; n elements in total
static inline Q knum(unsigned long long n, const K &k) { return kred(qnum(n, k.p), k); }
static inline Q kr(const K &k) { int d = k.simple() ? 0 : dg(k.m) - 1; Q a(d + 1); int mode = H::rnd() % 5; for (auto &x : a) x = mode == 0 && H::rnd() % 3 ? 0 : (ll_)H::rin(0, k.p - 1); if (mode == 1) return kint((ll_)H::rin(0, 2), k); return tr(a); }
static inline X xr(int maxdeg, const K &k) { int d = (int)H::rin(-1, maxdeg); X a(d + 1); int mode = H::rnd() % 3; for (auto &x : a) if (!(mode == 0 && H::rnd() % 2)) x = kr(k); if (d >= 0) { if (H::rnd() % 3 == 0) a[d] = kint(1, k); while (a[d].empty()) a[d] = kr(k); } return xtr(a); }
static inline bool qirr(const Q &m, ll_ p) { int n = dg(m); if (n < 1) return false; unsigned long long lim = 1; for (int i = 0; i < n / 2 + 1; i++) lim *= p; for (unsigned long long v = p; v < lim; v++) { Q d = qnum(v, p); if (dg(d) <= n / 2 && qmod(m, d, p).empty()) return false; } return true; }
static inline const std::vector<K> &fields(int which) { // 0: binary, 1: odd and binary over fp classes
  static std::vector<K> T[2];
  if (T[0].empty()) {
    for (ll_ p : {2, 3, 5, 7, 11, 101}) for (int n = 1; n <= (p == 2 ? 5 : p == 3 ? 3 : 2); n++) { unsigned long long lo = 1; for (int i = 0; i < n; i++) lo *= p; int c = 0; for (unsigned long long v = lo; v < 2 * lo && c < 2; v++) if (qirr(qnum(v, p), p)) { K k{p, qnum(v, p)}; if (p == 2) T[0].push_back(k); T[1].push_back(k); c++; } }
    for (Q m : {Q{1,1,0,1,1,0,0,0,1}, Q{1,1,0,0,0,0,0,1}}) T[0].push_back(K{2, m});  // degrees 8 and 7
    Q m16(17); for (int i : {0, 1, 3, 12, 16}) m16[i] = 1; T[0].push_back(K{2, m16});
    Q m70(64); m70[63] = m70[1] = m70[0] = 1; T[0].push_back(K{2, m70});            // x^63+x+1
    T[1].push_back(K{3, Q{1, 2, 0, 0, 0, 1}}); T[1].push_back(K{3, Q{2, 1, 0, 0, 1}}); T[1].push_back(K{7, Q{4, 0, 6, 1}});
  }
  return T[which];
}
