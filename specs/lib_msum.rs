// ---- sums of products, over coefficient sequences of polynomials (used with p = 2 here and with p odd for F(p^n)[x])
pub type PQ = spec_fn(int) -> P;
pub open spec fn msum(a: PQ, b: PQ, k: int, n: int, p: int) -> P decreases n { if n <= 0 { pz() } else { padd(msum(a, b, k, n - 1, p), pmul(a(n - 1), b(k - (n - 1)), p), p) } }
pub open spec fn mpart(a: PQ, b: PQ, k: int, i: int, j: int, p: int) -> P { if 0 <= k - i < j { msum(a, b, k, i + 1, p) } else { msum(a, b, k, i, p) } }
pub proof fn lemma_pcong_addr(a: P, b: P, c: P, m: P, p: int) requires p > 1, can(m, p), can(b, p), can(c, p), pcong(a, b, m, p) ensures pcong(padd(a, c, p), padd(b, c, p), m, p)
{
    let q = choose|q: P| pol(q, p) && a == padd(#[trigger] pmul(q, m, p), b, p); lemma_pmul_can(q, m, p); lemma_padd_laws(pmul(q, m, p), b, c, p); lemma_pcong_intro(padd(a, c, p), padd(b, c, p), m, q, p);
}
pub proof fn lemma_mstep(s: P, r: P, t: P, u: P, v: P, m: P, p: int)
    requires p > 1, can(m, p), can(s, p), can(r, p), can(t, p), can(u, p), can(v, p), pisrem(s, m, r, p), pisrem(t, m, u, p), pisrem(padd(r, u, p), m, v, p)
    ensures pisrem(padd(s, t, p), m, v, p)
{
    lemma_pcong_addr(s, r, t, m, p); lemma_pcong_addr(t, u, r, m, p); lemma_padd_laws(r, t, u, p); lemma_padd_laws(r, u, t, p); lemma_padd_can(r, t, p); lemma_padd_can(r, u, p); lemma_padd_can(s, t, p);
    lemma_pcong_trans(padd(s, t, p), padd(r, t, p), padd(r, u, p), m, p); lemma_pcong_trans(padd(s, t, p), padd(r, u, p), v, m, p);
}
pub proof fn lemma_msum_can(a: PQ, b: PQ, k: int, n: int, p: int) requires p > 1 ensures can(msum(a, b, k, n, p), p) decreases n { lemma_pol_const(0, p); if n > 0 { lemma_msum_can(a, b, k, n - 1, p); lemma_pmul_can(a(n - 1), b(k - (n - 1)), p); lemma_padd_can(msum(a, b, k, n - 1, p), pmul(a(n - 1), b(k - (n - 1)), p), p); } }
pub proof fn lemma_msum_skip(a: PQ, b: PQ, k: int, i: int, p: int) requires p > 1, i >= 0, b(k - i) == pz() ensures msum(a, b, k, i + 1, p) == msum(a, b, k, i, p) { lemma_msum_can(a, b, k, i, p); lemma_pmul_zero(a(i), p); lemma_padd_laws(msum(a, b, k, i, p), pz(), pz(), p); }
pub open spec fn mhor(a: PQ, c: P, k: int, d: int, p: int) -> P decreases d - k { if k >= d { a(d) } else { padd(pmul(mhor(a, c, k + 1, d, p), c, p), a(k), p) } }
pub proof fn lemma_mhor_can(a: PQ, c: P, k: int, d: int, p: int) requires p > 1, forall|j: int| can(#[trigger] a(j), p) ensures can(mhor(a, c, k, d, p), p) decreases d - k { if k < d { lemma_pmul_can(mhor(a, c, k + 1, d, p), c, p); lemma_padd_can(pmul(mhor(a, c, k + 1, d, p), c, p), a(k), p); } }
pub proof fn lemma_plttot(a: P, b: P, k: int, p: int) requires can(a, p), can(b, p), forall|j: int| j > k ==> #[trigger] a(j) == b(j) ensures plt(a, b) || plt(b, a) || a == b decreases k + 1
{
    if k < 0 { assert forall|j: int| #[trigger] a(j) == b(j) by { if j < 0 { assert(b(j) == 0); } } lemma_peq(a, b); }
    else if a(k) < b(k) { assert(plt_at(a, b, k)); } else if b(k) < a(k) { assert forall|m: int| m > k implies #[trigger] b(m) == a(m) by { assert(a(m) == b(m)); } assert(plt_at(b, a, k)); } else { lemma_plttot(a, b, k - 1, p); }
}
