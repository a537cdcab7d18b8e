// Oracle polynomials over Z/p: coefficient vectors, least significant first, no trailing zeros (zero = empty)
#pragma once
#include <vector>
#include <string>
typedef long long ll_;
typedef std::vector<ll_> Q;
static inline ll_ md(ll_ a, ll_ p) { a %= p; return a < 0 ? a + p : a; }
static inline Q tr(Q a) { while (!a.empty() && a.back() == 0) a.pop_back(); return a; }
static inline int dg(const Q &a) { return (int)a.size() - 1; }            // -1 for zero
static inline int dg0(const Q &a) { return a.empty() ? 0 : (int)a.size() - 1; }
static inline ll_ cf(const Q &a, long k) { return k >= 0 && k < (long)a.size() ? a[k] : 0; }
static inline Q qadd(const Q &a, const Q &b, ll_ p) { Q r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = md(cf(a, i) + cf(b, i), p); return tr(r); }
static inline Q qsub(const Q &a, const Q &b, ll_ p) { Q r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) r[i] = md(cf(a, i) - cf(b, i), p); return tr(r); }
static inline Q qsc(const Q &a, ll_ c, ll_ p) { Q r(a); c = md(c, p); for (auto &x : r) x = x * c % p; return tr(r); }
static inline Q qmul(const Q &a, const Q &b, ll_ p) { if (a.empty() || b.empty()) return Q(); Q r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) if (a[i]) for (size_t j = 0; j < b.size(); j++) r[i + j] = (r[i + j] + a[i] * b[j]) % p; return tr(r); }
static inline Q qpow(const Q &a, long e, ll_ p) { Q r{1 % p}; r = tr(r); while (e-- > 0) r = qmul(r, a, p); return r; }
static inline ll_ inv(ll_ a, ll_ p) { a = md(a, p); ll_ x0 = 1, x1 = 0, r0 = a, r1 = p; while (r1) { ll_ q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = x0 - q * x1; x0 = x1; x1 = t; } return r0 == 1 ? md(x0, p) : 0; }
static inline void qdm(const Q &a, const Q &b, ll_ p, Q &q, Q &r) { // lead(b) invertible
  r = a; q = Q(a.size() >= b.size() ? a.size() - b.size() + 1 : 0); ll_ li = inv(b.back(), p);
  while (r.size() >= b.size() && !r.empty()) { size_t s = r.size() - b.size(); ll_ c = r.back() * li % p; q[s] = c; for (size_t i = 0; i < b.size(); i++) r[i + s] = md(r[i + s] - c * b[i], p); r = tr(r); }
  q = tr(q);
}
static inline Q qmod(const Q &a, const Q &b, ll_ p) { Q q, r; qdm(a, b, p, q, r); return r; }
static inline Q qmonic(const Q &a, ll_ p) { return a.empty() ? a : qsc(a, inv(a.back(), p), p); }
static inline Q qgcd(Q a, Q b, ll_ p) { while (!b.empty()) { Q r = qmod(a, b, p); a = b; b = r; } return qmonic(a, p); }
static inline Q qder(const Q &a, ll_ p) { Q r; for (size_t i = 1; i < a.size(); i++) r.push_back((ll_)(i % p) * a[i] % p); return tr(r); }
static inline ll_ qev(const Q &a, ll_ x, ll_ p) { ll_ r = 0; x = md(x, p); for (size_t i = a.size(); i-- > 0;) r = (r * x + a[i]) % p; return r; }
static inline Q qpowmod(Q a, long long e, const Q &m, ll_ p) { Q r{1}; r = qmod(r, m, p); a = qmod(a, m, p); while (e > 0) { if (e & 1) r = qmod(qmul(r, a, p), m, p); a = qmod(qmul(a, a, p), m, p); e >>= 1; } return r; }
static inline std::string qs(const Q &a) { std::string s; if (a.empty()) return "0"; for (size_t i = a.size(); i-- > 0;) { s += std::to_string(a[i]); if (i) s += ","; } return s.size() > 700 ? s.substr(0, 700) + "..." : s; }
// order of the coefficient strings read from the top
static inline int qcmp(const Q &a, const Q &b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
// x with s*a = gcd (monic) mod b: inverse of a modulo b or empty
static inline Q qinv(const Q &a, const Q &b, ll_ p) { Q r0 = b, r1 = qmod(a, b, p), s0, s1{1}; while (!r1.empty()) { Q q, r; qdm(r0, r1, p, q, r); r0 = r1; r1 = r; Q t = qsub(s0, qmul(q, s1, p), p); s0 = s1; s1 = t; } if (dg(r0) != 0) return Q(); return qmod(qsc(s0, inv(r0[0], p), p), b, p); }
// every polynomial number n in base p
static inline Q qnum(unsigned long long n, ll_ p) { Q r; while (n) { r.push_back(n % p); n /= p; } return r; }
