// factor lists of F2 polynomials: the product of the factors with multiplicity, times the unit
pub uninterp spec fn tfp(t: tfacinfo_f2_poly_t) -> P;
pub proof fn lemma_deg_ex2(a: P) -> (d: int) requires pol(a, 2), a != pz() ensures isdeg(a, d), d >= 0, a(d) == 1
{ let n = choose|n: int| n >= 0 && dle(a, n); lemma_pdeg_ex(a, n); let d = choose|d: int| isdeg(a, d); if a(d) == 0 { assert forall|k: int| #[trigger] a(k) == pz()(k) by { if k > 0 {} } lemma_peq(a, pz()); } assert(0 <= a(d) < 2); d }
pub proof fn lemma_pmul_deg(a: P, b: P, d: int, e: int) requires pol(a, 2), pol(b, 2), isdeg(a, d), isdeg(b, e), a(d) == 1, b(e) == 1 ensures isdeg(pmul(a, b, 2), d + e), pmul(a, b, 2)(d + e) == 1, pmul(a, b, 2) != pz()
{ lemma_pmul_dle(a, b, d, e, 2); assert(1int * 1int == 1); assert(pz()(d + e) == 0); }
pub proof fn lemma_pmul_nz(a: P, b: P) requires pol(a, 2), pol(b, 2), a != pz(), b != pz() ensures pmul(a, b, 2) != pz(), pol(pmul(a, b, 2), 2)
{ let d = lemma_deg_ex2(a); let e = lemma_deg_ex2(b); lemma_pmul_deg(a, b, d, e); lemma_pol_mul(a, b, 2); }
pub proof fn lemma_pcancel(a: P, b: P, g: P) requires pol(a, 2), pol(b, 2), pol(g, 2), g != pz(), pmul(a, g, 2) == pmul(b, g, 2) || pmul(g, a, 2) == pmul(g, b, 2) ensures a == b
{
    lemma_pmul_comm(a, g, 2); lemma_pmul_comm(b, g, 2);
    lemma_pmul_dist(g, a, b, 2); lemma_pmul_can(a, g, 2); lemma_padd_laws(pmul(a, g, 2), a, b, 2); lemma_pol_add(a, b, 2); lemma_padd_laws(a, b, b, 2); lemma_padd_laws(b, b, b, 2);
    if psub(a, b, 2) != pz() { lemma_pmul_nz(psub(a, b, 2), g); }
    assert(padd(psub(a, b, 2), b, 2) == a);
}
pub open spec fn pf(s: f2_poly_t) -> P { f2p(s.parts@) }
// a non-zero product: both parts are non-zero and the degrees add
pub proof fn lemma_fdeg(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>) requires f2ok(a), f2ok(b), f2ok(c), f2p(c) == pmul(f2p(a), f2p(b), 2), f2p(c) != pz()
    ensures f2p(a) != pz(), f2p(b) != pz(), f2deg(c) == f2deg(a) + f2deg(b), f2deg(a) >= 0, f2deg(b) >= 0
{
    lemma_f2can(a); lemma_f2can(b); lemma_f2can(c); lemma_pmul_zero(f2p(a), 2); lemma_pmul_zero(f2p(b), 2);
    lemma_f2isdeg(a); lemma_f2isdeg(b); lemma_f2isdeg(c); lemma_deg1(a, f2deg(a)); lemma_deg1(b, f2deg(b));
    lemma_pmul_deg(f2p(a), f2p(b), f2deg(a), f2deg(b)); lemma_isdeg_uniq(f2p(c), f2deg(c), f2deg(a) + f2deg(b));
}
// degree zero and non-zero is 1; lengths follow degrees
pub proof fn lemma_fone(a: Seq<u64>) requires f2ok(a), f2p(a) != pz() ensures f2deg(a) == 0 ==> f2p(a) == pc(1), f2p(a) == pc(1) ==> f2deg(a) == 0
{
    lemma_f2isdeg(a); lemma_f2can(a); lemma_deg1(a, f2deg(a));
    if f2deg(a) == 0 { assert forall|k: int| #[trigger] f2p(a)(k) == pc(1)(k) by { if k > 0 { assert(dle(f2p(a), 0)); } } lemma_peq(f2p(a), pc(1)); }
    if f2p(a) == pc(1) { assert(isdeg(pc(1), 0)); lemma_isdeg_uniq(f2p(a), f2deg(a), 0); }
}
pub proof fn lemma_flen(a: Seq<u64>, b: Seq<u64>) requires f2ok(a), f2ok(b), f2deg(a) <= f2deg(b) ensures a.len() <= b.len()
{ lemma_f2isdeg(a); lemma_f2isdeg(b); assert(f2deg(a) / 64 <= f2deg(b) / 64); }
// a divisor is no larger than what it divides
pub proof fn lemma_fdivdeg(d: Seq<u64>, a: Seq<u64>) requires f2ok(d), f2ok(a), pdiv(f2p(d), f2p(a), 2), f2p(a) != pz() ensures f2p(d) != pz(), f2deg(d) <= f2deg(a)
{
    lemma_f2can(d); lemma_f2can(a); let q = choose|q: P| pol(q, 2) && f2p(a) == #[trigger] pmul(q, f2p(d), 2);
    lemma_pmul_zero(f2p(d), 2); lemma_pmul_zero(q, 2); let e = lemma_deg_ex2(q); lemma_f2isdeg(d); lemma_f2isdeg(a); lemma_deg1(d, f2deg(d));
    lemma_pmul_deg(q, f2p(d), e, f2deg(d)); lemma_isdeg_uniq(f2p(a), f2deg(a), e + f2deg(d));
}
// the derivative is smaller
pub proof fn lemma_fder(f: Seq<u64>, d: Seq<u64>) requires f2ok(f), f2ok(d), f2p(d) == pderiv(f2p(f), 2), f2p(d) != pz(), f2deg(f) >= 1 ensures f2deg(d) < f2deg(f)
{
    lemma_f2isdeg(f); lemma_f2isdeg(d); let n = f2deg(f);
    assert forall|k: int| k > n - 1 implies #[trigger] f2p(d)(k) == 0 by { assert(f2p(f)(k + 1) == 0); assert((k + 1) * 0 == 0); }
    assert(dle(f2p(d), n - 1));
}
// exact division
pub proof fn lemma_fquot(f: P, g: P, q: P) requires pol(f, 2), pol(g, 2), pol(q, 2), g != pz(), pdiv(g, f, 2), f2isquot(f, g, q) ensures f == pmul(q, g, 2)
{
    let u = choose|u: P| pol(u, 2) && f == #[trigger] pmul(u, g, 2); let r = choose|r: P| #[trigger] f2div(f, g, q, r) && can(r, 2);
    let d = lemma_deg_ex2(g); let qg = pmul(q, g, 2);
    lemma_pmul_can(q, g, 2); lemma_padd_laws(r, qg, r, 2); lemma_padd_laws(qg, r, r, 2); lemma_pmul_dist(g, u, q, 2);
    assert(f == padd(qg, r, 2)); assert(psub(f, qg, 2) == r); assert(r == pmul(psub(u, q, 2), g, 2));
    let w = psub(u, q, 2); lemma_pol_add(u, q, 2);
    if w != pz() { let e = lemma_deg_ex2(w); lemma_pmul_deg(w, g, e, d); assert(dle(r, d - 1)); assert(r(e + d) == 0); }
    lemma_pmul_zero(g, 2); assert(r == pz()); lemma_padd_laws(qg, qg, qg, 2);
}
// ring algebra over F2
pub proof fn lemma_f2xx(a: P) requires can(a, 2) ensures padd(a, a, 2) == pz() { assert forall|k: int| #[trigger] padd(a, a, 2)(k) == pz()(k) by { assert(0 <= a(k) < 2); } lemma_peq(padd(a, a, 2), pz()); }
pub proof fn lemma_pmul4(a: P, b: P, c: P, d: P) ensures pmul(pmul(a, b, 2), pmul(c, d, 2), 2) == pmul(pmul(a, c, 2), pmul(b, d, 2), 2)
{
    lemma_pmul_assoc(a, b, pmul(c, d, 2), 2); lemma_pmul_assoc(b, c, d, 2); lemma_pmul_comm(b, c, 2); lemma_pmul_assoc(c, b, d, 2); lemma_pmul_assoc(a, c, pmul(b, d, 2), 2);
}
// f1 f2 divides f: h + (h + 1) = 1
pub proof fn lemma_bfac_a(f: P, h: P, hc: P, f1: P, f2: P) -> (u: P)
    requires pol(f, 2), pol(h, 2), pol(hc, 2), pol(f1, 2), pol(f2, 2), hc == padd(h, pc(1), 2), pdiv(f1, f, 2), pdiv(f1, h, 2), pdiv(f2, f, 2), pdiv(f2, hc, 2)
    ensures pol(u, 2), f == pmul(u, pmul(f1, f2, 2), 2)
{
    let a = choose|q: P| pol(q, 2) && f == #[trigger] pmul(q, f1, 2); let b = choose|q: P| pol(q, 2) && f == #[trigger] pmul(q, f2, 2);
    let c = choose|q: P| pol(q, 2) && h == #[trigger] pmul(q, f1, 2); let e = choose|q: P| pol(q, 2) && hc == #[trigger] pmul(q, f2, 2);
    lemma_pol_const(1, 2); lemma_padd_laws(h, h, pc(1), 2); lemma_f2xx(h); lemma_padd_laws(pc(1), h, h, 2);
    assert(padd(h, hc, 2) == pc(1)); lemma_pmul_one(f, 2); lemma_pmul_dist(f, h, hc, 2);
    let m = pmul(f1, f2, 2);
    lemma_pmul4(b, f2, c, f1); lemma_pmul_comm(f2, f1, 2); assert(pmul(f, h, 2) == pmul(pmul(b, c, 2), m, 2));
    lemma_pmul4(a, f1, e, f2); assert(pmul(f, hc, 2) == pmul(pmul(a, e, 2), m, 2));
    let u = padd(pmul(b, c, 2), pmul(a, e, 2), 2); lemma_pmul_dist(m, pmul(b, c, 2), pmul(a, e, 2), 2);
    lemma_pol_mul(b, c, 2); lemma_pol_mul(a, e, 2); lemma_pol_add(pmul(b, c, 2), pmul(a, e, 2), 2);
    u
}
// f divides f1 f2: f1 = x f + y h, f2 = z f + w (h+1), and f divides h (h+1)
pub proof fn lemma_bfac_b(f: P, h: P, hc: P, f1: P, f2: P, k: P) -> (v: P)
    requires pol(f, 2), pol(h, 2), pol(hc, 2), pol(f1, 2), pol(f2, 2), pol(k, 2), hc == padd(h, pc(1), 2), pmul(h, h, 2) == padd(pmul(k, f, 2), h, 2), pcx(f1, f, h, 2), pcx(f2, f, hc, 2)
    ensures pol(v, 2), pmul(f1, f2, 2) == pmul(v, f, 2)
{
    let (x, y) = choose|m: P, n: P| #[trigger] pcxw(f1, f, h, m, n, 2); let (z, w) = choose|m: P, n: P| #[trigger] pcxw(f2, f, hc, m, n, 2);
    let kf = pmul(k, f, 2); lemma_pol_mul(k, f, 2); lemma_pol_const(1, 2);
    lemma_pmul_dist(h, h, pc(1), 2); lemma_pmul_one(h, 2); lemma_padd_laws(kf, h, h, 2); lemma_f2xx(h); assert(pmul(h, hc, 2) == kf);
    let xf = pmul(x, f, 2); let yh = pmul(y, h, 2); let zf = pmul(z, f, 2); let wh = pmul(w, hc, 2);
    lemma_pol_mul(x, f, 2); lemma_pol_mul(y, h, 2); lemma_pol_mul(z, f, 2); lemma_pol_mul(w, hc, 2);
    // (xf + yh) f2 = xf f2 + yh (zf + wh)
    lemma_pmul_dist(f2, xf, yh, 2); lemma_pmul_dist(yh, zf, wh, 2);
    lemma_pmul_assoc(x, f, f2, 2); lemma_pmul_comm(f, f2, 2); lemma_pmul_assoc(x, f2, f, 2); let t1 = pmul(x, f2, 2); assert(pmul(xf, f2, 2) == pmul(t1, f, 2));
    lemma_pmul_assoc(yh, z, f, 2); let t2 = pmul(yh, z, 2); assert(pmul(yh, zf, 2) == pmul(t2, f, 2));
    lemma_pmul4(y, h, w, hc); let yw = pmul(y, w, 2); lemma_pmul_assoc(yw, k, f, 2); let t3 = pmul(yw, k, 2); assert(pmul(yh, wh, 2) == pmul(t3, f, 2));
    lemma_pol_mul(x, f2, 2); lemma_pol_mul(yh, z, 2); lemma_pol_mul(y, w, 2); lemma_pol_mul(yw, k, 2);
    lemma_pmul_dist(f, t2, t3, 2); let t = padd(t2, t3, 2); lemma_pol_add(t2, t3, 2); lemma_pmul_dist(f, t1, t, 2); lemma_pol_add(t1, t, 2);
    assert(pmul(f1, f2, 2) == padd(pmul(t1, f, 2), pmul(t, f, 2), 2));
    padd(t1, t, 2)
}
pub proof fn lemma_bfac(f: Seq<u64>, h: P, hc: P, f1: P, f2: P)
    requires f2ok(f), f2p(f) != pz(), pol(h, 2), pol(hc, 2), pol(f1, 2), pol(f2, 2), hc == padd(h, pc(1), 2), f2isrem(pmul(h, h, 2), f2p(f), h), pgcd(f1, f2p(f), h, 2), pcx(f1, f2p(f), h, 2), pgcd(f2, f2p(f), hc, 2), pcx(f2, f2p(f), hc, 2)
    ensures f2p(f) == pmul(f1, f2, 2)
{
    let ff = f2p(f); lemma_f2can(f); let k = choose|q: P| #[trigger] f2div(pmul(h, h, 2), ff, q, h) && pol(q, 2); let m = pmul(f1, f2, 2); lemma_pol_mul(f1, f2, 2);
    let u = lemma_bfac_a(ff, h, hc, f1, f2); let v = lemma_bfac_b(ff, h, hc, f1, f2, k);
    // f = u (v f), so u v = 1
    lemma_pmul_assoc(u, v, ff, 2); lemma_pmul_one(ff, 2); lemma_pol_const(1, 2); lemma_pol_mul(u, v, 2); lemma_pcancel(pmul(u, v, 2), pc(1), ff);
    lemma_pmul_zero(u, 2); lemma_pmul_zero(v, 2); assert(pc(1)(0) != pz()(0));
    let d = lemma_deg_ex2(u); let e = lemma_deg_ex2(v); lemma_pmul_deg(u, v, d, e); assert(isdeg(pc(1), 0)); lemma_isdeg_uniq(pc(1), 0, d + e);
    assert forall|k: int| #[trigger] u(k) == pc(1)(k) by { if k > 0 { assert(dle(u, 0)); } } lemma_peq(u, pc(1)); lemma_pmul_one(m, 2);
}
pub proof fn lemma_remlen(a: P, f: Seq<u64>, r: Seq<u64>) requires f2ok(f), f2ok(r), f2isrem(a, f2p(f), f2p(r)) ensures r.len() <= f.len()
{
    let q = choose|q: P| #[trigger] f2div(a, f2p(f), q, f2p(r)) && pol(q, 2);
    if f2p(r) != pz() { lemma_rem_deg(r, f); } else { lemma_f2isdeg(r); lemma_f2isdeg(f); assert(isdeg(pz(), 0)); lemma_isdeg_uniq(pz(), 0, f2deg(r)); lemma_flen(r, f); }
}
