// ---- congruence modulo a polynomial, over Z/p
pub open spec fn pcong(a: P, b: P, m: P, p: int) -> bool { exists|q: P| pol(q, p) && a == padd(#[trigger] pmul(q, m, p), b, p) }
pub proof fn lemma_pcong_intro(a: P, b: P, m: P, q: P, p: int) requires pol(q, p), a == padd(pmul(q, m, p), b, p) ensures pcong(a, b, m, p) { assert(pmul(q, m, p) == pmul(q, m, p)); }
pub proof fn lemma_pcong_refl(a: P, m: P, p: int) requires p > 1, can(a, p), can(m, p) ensures pcong(a, a, m, p)
{ lemma_pmul_zero(m, p); lemma_padd_laws(a, a, a, p); lemma_pol_const(0, p); lemma_padd_laws(pz(), a, a, p); lemma_pcong_intro(a, a, m, pz(), p); }
pub proof fn lemma_pcong_sym(a: P, b: P, m: P, p: int) requires p > 1, can(b, p), can(m, p), pcong(a, b, m, p) ensures pcong(b, a, m, p)
{
    let q = choose|q: P| pol(q, p) && a == padd(#[trigger] pmul(q, m, p), b, p);
    let u = pmul(q, m, p); lemma_pmul_can(q, m, p); lemma_pol_add(q, q, p);
    lemma_pol_const(0, p); lemma_pol_add(pz(), q, p);
    let n = psub(pz(), q, p);
    lemma_pmul_dist(m, pz(), q, p); lemma_pmul_zero(m, p);
    let v = pmul(n, m, p);
    assert forall|k: int| #[trigger] b(k) == padd(v, a, p)(k) by {
        let x = u(k); let y = b(k); assert(0 <= y < p);
        assert(v(k) == (0 - x) % p); assert(a(k) == (x + y) % p);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(0 - x, x + y, p); vstd::arithmetic::div_mod::lemma_small_mod(y as nat, p as nat);
        assert(0 - x + (x + y) == y);
    }
    lemma_peq(b, padd(v, a, p)); lemma_pcong_intro(b, a, m, n, p);
}
pub proof fn lemma_pcong_trans(a: P, b: P, c: P, m: P, p: int) requires p > 1, can(m, p), can(c, p), pcong(a, b, m, p), pcong(b, c, m, p) ensures pcong(a, c, m, p)
{
    let q = choose|q: P| pol(q, p) && a == padd(#[trigger] pmul(q, m, p), b, p); let r = choose|r: P| pol(r, p) && b == padd(#[trigger] pmul(r, m, p), c, p);
    lemma_pmul_can(q, m, p); lemma_pmul_can(r, m, p); lemma_pmul_dist(m, q, r, p); lemma_pol_add(q, r, p);
    lemma_padd_laws(pmul(q, m, p), pmul(r, m, p), c, p);
    assert(pmul(padd(q, r, p), m, p) == padd(pmul(q, m, p), pmul(r, m, p), p));
    lemma_pcong_intro(a, c, m, padd(q, r, p), p);
}
// a = a' (mod m)  implies  a c = a' c
pub proof fn lemma_pcong_mulr(a: P, b: P, c: P, m: P, p: int) requires p > 1, can(m, p), pol(c, p), can(b, p), pcong(a, b, m, p) ensures pcong(pmul(a, c, p), pmul(b, c, p), m, p), pcong(pmul(c, a, p), pmul(c, b, p), m, p)
{
    let q = choose|q: P| pol(q, p) && a == padd(#[trigger] pmul(q, m, p), b, p);
    lemma_pmul_can(q, m, p); lemma_pmul_dist(c, pmul(q, m, p), b, p); lemma_pmul_assoc(q, m, c, p); lemma_pmul_comm(m, c, p); lemma_pmul_assoc(q, c, m, p); lemma_pol_mul(q, c, p);
    lemma_pcong_intro(pmul(a, c, p), pmul(b, c, p), m, pmul(q, c, p), p); lemma_pmul_comm(a, c, p); lemma_pmul_comm(b, c, p);
}
pub proof fn lemma_pcong_mul(a: P, a2: P, b: P, b2: P, m: P, p: int) requires p > 1, can(m, p), pol(a2, p), pol(b, p), pol(b2, p), pcong(a, a2, m, p), pcong(b, b2, m, p) ensures pcong(pmul(a, b, p), pmul(a2, b2, p), m, p)
{ lemma_pcong_mulr(a, a2, b, m, p); lemma_pcong_mulr(b, b2, a2, m, p); lemma_pmul_can(a2, b2, p); lemma_pcong_trans(pmul(a, b, p), pmul(a2, b, p), pmul(a2, b2, p), m, p); }
pub proof fn lemma_pol_pow(a: P, e: nat, p: int) requires p > 1, pol(a, p) ensures pol(ppow(a, e, p), p) decreases e { if e > 0 { lemma_pol_pow(a, (e - 1) as nat, p); lemma_pol_mul(a, ppow(a, (e - 1) as nat, p), p); } else { lemma_pol_const(1, p); } }
pub proof fn lemma_pcong_pow(a: P, b: P, e: nat, m: P, p: int) requires p > 1, can(m, p), pol(a, p), pol(b, p), pcong(a, b, m, p) ensures pcong(ppow(a, e, p), ppow(b, e, p), m, p) decreases e
{
    if e > 0 { let d = (e - 1) as nat; lemma_pcong_pow(a, b, d, m, p); lemma_pol_pow(a, d, p); lemma_pol_pow(b, d, p); lemma_pcong_mul(a, b, ppow(a, d, p), ppow(b, d, p), m, p); }
    else { lemma_pol_const(1, p); lemma_pcong_refl(pc(1), m, p); }
}
pub proof fn lemma_ppow_mul(a: P, b: P, e: nat, p: int) requires p > 1, pol(a, p), pol(b, p) ensures ppow(pmul(a, b, p), e, p) == pmul(ppow(a, e, p), ppow(b, e, p), p) decreases e
{
    if e > 0 {
        let d = (e - 1) as nat; lemma_ppow_mul(a, b, d, p); let x = ppow(a, d, p); let y = ppow(b, d, p);
        // (ab)(xy) = (ax)(by)
        lemma_pmul_assoc(a, b, pmul(x, y, p), p); lemma_pmul_assoc(b, x, y, p); lemma_pmul_comm(b, x, p); lemma_pmul_assoc(x, b, y, p); lemma_pmul_assoc(a, x, pmul(b, y, p), p);
    } else { lemma_pol_const(1, p); lemma_pmul_one(pc(1), p); }
}
pub proof fn lemma_ppow_one(e: nat, p: int) requires p > 1 ensures ppow(pc(1), e, p) == pc(1) decreases e { lemma_pol_const(1, p); if e > 0 { lemma_ppow_one((e - 1) as nat, p); lemma_pmul_one(pc(1), p); } }
// ---- reduced representatives
pub open spec fn pisrem(a: P, m: P, r: P, p: int) -> bool { pcong(a, r, m, p) && prem(r, m) }
// binary powering modulo m
pub open spec fn pexpinv(t: P, e0: int, r: P, x: P, e: int, m: P, p: int) -> bool { pcong(ppow(t, e0 as nat, p), pmul(r, ppow(x, e as nat, p), p), m, p) }
pub proof fn lemma_pexp_start(t: P, e: int, r: P, x: P, m: P, p: int) requires p > 1, can(m, p), pol(t, p), pol(r, p), e >= 0, x == t, pcong(pc(1), r, m, p) ensures pexpinv(t, e, r, x, e, m, p)
{ lemma_pol_pow(t, e as nat, p); lemma_pcong_mulr(pc(1), r, ppow(t, e as nat, p), m, p); lemma_pmul_one(ppow(t, e as nat, p), p); lemma_pol_const(1, p); }
pub proof fn lemma_pexp_step(t: P, e0: int, r: P, x: P, e: int, r2: P, x2: P, m: P, p: int)
    requires p > 1, can(m, p), pol(t, p), pol(r, p), pol(x, p), pol(r2, p), pol(x2, p), e > 0, pexpinv(t, e0, r, x, e, m, p), pcong(pmul(x, x, p), x2, m, p), e % 2 == 1 ==> pcong(pmul(r, x, p), r2, m, p), e % 2 == 0 ==> r2 == r
    ensures pexpinv(t, e0, r2, x2, e / 2, m, p)
{
    let h = (e / 2) as nat; let xx = pmul(x, x, p);
    lemma_ppow_step(r, x, e, p); lemma_pol_mul(x, x, p); lemma_pol_mul(r, x, p); lemma_pcong_pow(xx, x2, h, m, p); lemma_pol_pow(xx, h, p); lemma_pol_pow(x2, h, p);
    lemma_pol_mul(r2, ppow(x2, h, p), p);
    if e % 2 == 1 { lemma_pcong_mul(pmul(r, x, p), r2, ppow(xx, h, p), ppow(x2, h, p), m, p); }
    else { lemma_pcong_mulr(ppow(xx, h, p), ppow(x2, h, p), r, m, p); }
    lemma_pcong_trans(ppow(t, e0 as nat, p), pmul(r, ppow(x, e as nat, p), p), pmul(r2, ppow(x2, h, p), p), m, p);
}
pub proof fn lemma_pexp_end(t: P, e0: int, r: P, x: P, m: P, p: int) requires p > 1, can(r, p), pexpinv(t, e0, r, x, 0, m, p) ensures pcong(ppow(t, e0 as nat, p), r, m, p) { lemma_ppow_0(r, x, p); }
// t is inverse to b:  t^n = r  gives  r b^n = 1
pub proof fn lemma_pexp_inv(b: P, t: P, n: nat, r: P, m: P, p: int)
    requires p > 1, can(m, p), pol(b, p), pol(t, p), pol(r, p), pcong(pmul(t, b, p), pc(1), m, p), pcong(ppow(t, n, p), r, m, p) ensures pcong(pmul(r, ppow(b, n, p), p), pc(1), m, p)
{
    lemma_pol_mul(t, b, p); lemma_pol_const(1, p); lemma_pcong_pow(pmul(t, b, p), pc(1), n, m, p); lemma_ppow_one(n, p); lemma_ppow_mul(t, b, n, p);
    lemma_pol_pow(t, n, p); lemma_pol_pow(b, n, p); lemma_pcong_sym(ppow(t, n, p), r, m, p); lemma_pcong_mulr(r, ppow(t, n, p), ppow(b, n, p), m, p);
    lemma_pcong_trans(pmul(r, ppow(b, n, p), p), pmul(ppow(t, n, p), ppow(b, n, p), p), pc(1), m, p);
}
// quotient: q = a * i, i b = 1  gives  q b = a
pub proof fn lemma_pquot(a: P, b: P, i: P, q: P, m: P, p: int)
    requires p > 1, can(m, p), pol(a, p), pol(b, p), pol(i, p), pol(q, p), pcong(pmul(i, b, p), pc(1), m, p), pcong(pmul(a, i, p), q, m, p) ensures pcong(pmul(q, b, p), a, m, p)
{
    lemma_pol_mul(a, i, p); lemma_pcong_sym(pmul(a, i, p), q, m, p); lemma_pcong_mulr(q, pmul(a, i, p), b, m, p); lemma_pmul_assoc(a, i, b, p);
    lemma_pol_mul(i, b, p); lemma_pol_const(1, p); lemma_pcong_mulr(pmul(i, b, p), pc(1), a, m, p); lemma_pmul_one(a, p);
    lemma_pcong_trans(pmul(q, b, p), pmul(a, pmul(i, b, p), p), a, m, p);
}
// coprimality: the gcd is 1
pub open spec fn pcop(a: P, m: P, p: int) -> bool { pgcd(pc(1), a, m, p) }
pub proof fn lemma_pcomb_inv(a: P, m: P, u: P, v: P, r: P, p: int)
    requires p > 1, pol(a, p), pol(m, p), pol(u, p), pol(v, p), pol(r, p), pcomb(pc(1), a, m, u, v, p), pcong(u, r, m, p) ensures pcong(pmul(r, a, p), pc(1), m, p)
{
    lemma_pol_mul(u, a, p); lemma_pol_const(1, p); lemma_pmul_can(v, m, p); lemma_padd_laws(pmul(u, a, p), pmul(v, m, p), pc(1), p);
    lemma_pcong_intro(pc(1), pmul(u, a, p), m, v, p);
    lemma_pcong_sym(pc(1), pmul(u, a, p), m, p); lemma_pcong_sym(u, r, m, p); lemma_pcong_mulr(r, u, a, m, p);
    lemma_pcong_trans(pmul(r, a, p), pmul(u, a, p), pc(1), m, p);
}
// a divisor of 1 has degree 0 (leading coefficients of prime modulus: the product of nonzero residues is nonzero)
pub open spec fn nozd(p: int) -> bool { forall|x: int, y: int| 0 < x < p && 0 < y < p ==> #[trigger] mul(x, y) % p != 0 }
pub proof fn lemma_unitdeg(g: P, d: int, p: int) requires p > 1, nozd(p), pol(g, p), isdeg(g, d), pdiv(g, pc(1), p) ensures d == 0
{
    let q = choose|q: P| pol(q, p) && pc(1) == #[trigger] pmul(q, g, p);
    if d > 0 {
        let n = choose|n: int| n >= 0 && dle(q, n);
        lemma_pdeg_ex(q, n);
        let e = choose|e: int| isdeg(q, e);
        if q == pz() { lemma_pmul_zero(g, p); assert(pc(1)(0) == pz()(0)); }
        else {
            if e == 0 && q(0) == 0 { assert forall|k: int| #[trigger] q(k) == pz()(k) by {} lemma_peq(q, pz()); }
            lemma_pmul_dle(q, g, e, d, p);
            assert(mul(q(e), g(d)) % p != 0);
            assert(pc(1)(e + d) == 0);
        }
    }
}
pub proof fn lemma_pdeg_ex(a: P, n: int) requires n >= 0, dle(a, n) ensures exists|d: int| isdeg(a, d) decreases n
{ if n == 0 || a(n) != 0 { assert(isdeg(a, n)); } else { assert forall|k: int| k > n - 1 implies #[trigger] a(k) == 0 by { if k == n {} } lemma_pdeg_ex(a, n - 1); } }
pub proof fn lemma_pcop_zero(m: P, d: int, p: int) requires p > 1, nozd(p), pol(m, p), isdeg(m, d), d > 0 ensures !pcop(pz(), m, p)
{ if pcop(pz(), m, p) { lemma_pdiv_refl(m, p); assert(pdiv(m, pc(1), p)); lemma_unitdeg(m, d, p); } }
// the gcd g of (a, m) decides coprimality
pub proof fn lemma_pcop_gcd(a: P, m: P, g: P, d: int, p: int) requires p > 1, nozd(p), pol(g, p), pgcd(g, a, m, p), isdeg(g, d) ensures d > 0 ==> !pcop(a, m, p), g == pc(1) ==> pcop(a, m, p)
{ if d > 0 && pcop(a, m, p) { assert(pdiv(g, pc(1), p)); lemma_unitdeg(g, d, p); } }
// reduced representatives are unique
pub proof fn lemma_prem_zero(q: P, m: P, r: P, d: int, p: int) requires p > 1, nozd(p), pol(q, p), pol(m, p), isdeg(m, d), d > 0, r == pmul(q, m, p), prem(r, m) ensures r == pz()
{
    let n = choose|n: int| n >= 0 && dle(q, n); lemma_pdeg_ex(q, n); let e = choose|e: int| isdeg(q, e);
    if e == 0 && q(0) == 0 { assert forall|k: int| #[trigger] q(k) == pz()(k) by {} lemma_peq(q, pz()); lemma_pmul_zero(m, p); }
    else { lemma_pmul_dle(q, m, e, d, p); assert(mul(q(e), m(d)) % p != 0); assert(dle(r, d - 1)); assert(r(e + d) == 0); }
}
