// ---- rational functions over F2
pub open spec fn qn(x: f2_polyrat_t) -> P { f2p(x.numer.parts@) }
pub open spec fn qd(x: f2_polyrat_t) -> P { f2p(x.denom.parts@) }
pub open spec fn qst(x: f2_polyrat_t) -> bool { f2ok(x.numer.parts@) && f2ok(x.denom.parts@) }
pub open spec fn qlow(n: P, d: P) -> bool { d != pz() && pcx(pc(1), n, d, 2) }
pub open spec fn qok(x: f2_polyrat_t) -> bool { qst(x) && qlow(qn(x), qd(x)) }
pub open spec fn qsz(x: f2_polyrat_t) -> int { (x.numer.parts@.len() + x.denom.parts@.len()) as int }
pub open spec fn qln(x: f2_polyrat_t) -> int { if x.numer.parts@.len() > x.denom.parts@.len() { x.numer.parts@.len() as int } else { x.denom.parts@.len() as int } }
// a/b and c/d denote the same fraction
pub open spec fn qsame(a: P, b: P, c: P, d: P) -> bool { pmul(a, d, 2) == pmul(c, b, 2) }
#[verifier::opaque]
pub open spec fn dsub(a: P, b: P) -> bool { forall|k: int| k >= 0 && #[trigger] dle(b, k) ==> dle(a, k) }
pub proof fn lemma_deg_ex2(a: P) -> (d: int) requires pol(a, 2), a != pz() ensures isdeg(a, d), d >= 0, a(d) == 1
{ let n = choose|n: int| n >= 0 && dle(a, n); lemma_pdeg_ex(a, n); let d = choose|d: int| isdeg(a, d); if a(d) == 0 { assert forall|k: int| #[trigger] a(k) == pz()(k) by { if k > 0 {} } lemma_peq(a, pz()); } assert(0 <= a(d) < 2); d }
pub proof fn lemma_pmul_deg(a: P, b: P, d: int, e: int) requires pol(a, 2), pol(b, 2), isdeg(a, d), isdeg(b, e), a(d) == 1, b(e) == 1 ensures isdeg(pmul(a, b, 2), d + e), pmul(a, b, 2)(d + e) == 1, pmul(a, b, 2) != pz()
{ lemma_pmul_dle(a, b, d, e, 2); assert(1int * 1int == 1); assert(pz()(d + e) == 0); }
pub proof fn lemma_pmul_nz(a: P, b: P) requires pol(a, 2), pol(b, 2), a != pz(), b != pz() ensures pmul(a, b, 2) != pz(), pol(pmul(a, b, 2), 2)
{ let d = lemma_deg_ex2(a); let e = lemma_deg_ex2(b); lemma_pmul_deg(a, b, d, e); lemma_pol_mul(a, b, 2); }
pub proof fn lemma_pcancel(a: P, b: P, g: P) requires pol(a, 2), pol(b, 2), pol(g, 2), g != pz(), pmul(a, g, 2) == pmul(b, g, 2) || pmul(g, a, 2) == pmul(g, b, 2) ensures a == b
{
    lemma_pmul_comm(a, g, 2); lemma_pmul_comm(b, g, 2);
    lemma_pmul_dist(g, a, b, 2); lemma_pmul_can(a, g, 2); lemma_padd_laws(pmul(a, g, 2), a, b, 2); lemma_pol_add(a, b, 2); lemma_padd_laws(a, b, b, 2); lemma_padd_laws(b, b, b, 2);
    if psub(a, b, 2) != pz() { lemma_pmul_nz(psub(a, b, 2), g); }
    assert(padd(psub(a, b, 2), b, 2) == a);
}
pub proof fn lemma_pm3(a: P, b: P, c: P) ensures pmul(pmul(a, b, 2), c, 2) == pmul(pmul(a, c, 2), b, 2), pmul(pmul(a, b, 2), c, 2) == pmul(a, pmul(b, c, 2), 2), pmul(pmul(a, b, 2), c, 2) == pmul(b, pmul(a, c, 2), 2)
{ lemma_pmul_assoc(a, b, c, 2); lemma_pmul_assoc(a, c, b, 2); lemma_pmul_comm(b, c, 2); lemma_pmul_comm(b, pmul(a, c, 2), 2); }
pub proof fn lemma_pm4(a: P, b: P, c: P, d: P) ensures pmul(pmul(a, b, 2), pmul(c, d, 2), 2) == pmul(pmul(a, c, 2), pmul(b, d, 2), 2)
{ lemma_pmul_assoc(a, b, pmul(c, d, 2), 2); lemma_pm3(b, c, d); lemma_pmul_assoc(b, c, d, 2); lemma_pm3(c, b, d); lemma_pmul_assoc(a, c, pmul(b, d, 2), 2); lemma_pmul_comm(b, c, 2); }
// exact division by the gcd
pub proof fn lemma_exact(n: P, q: P, g: P) requires pol(n, 2), pol(q, 2), pol(g, 2), g != pz(), f2isquot(n, g, q), pdiv(g, n, 2) ensures n == pmul(q, g, 2), dsub(q, n), n != pz() ==> q != pz()
{ reveal(dsub);
    let r = choose|r: P| #[trigger] f2div(n, g, q, r) && can(r, 2);
    let k = choose|k: P| pol(k, 2) && n == #[trigger] pmul(k, g, 2);
    let dg = lemma_deg_ex2(g); lemma_nozd2();
    lemma_pmul_can(q, g, 2); lemma_pmul_can(k, g, 2); lemma_padd_laws(r, pmul(q, g, 2), r, 2); lemma_padd_laws(pmul(q, g, 2), r, r, 2);
    assert(psub(n, pmul(q, g, 2), 2) == r) by { assert(padd(pmul(q, g, 2), r, 2) == padd(r, pmul(q, g, 2), 2)); }
    lemma_pmul_dist(g, k, q, 2); assert(r == pmul(psub(k, q, 2), g, 2)); lemma_pol_add(k, q, 2);
    if dg > 0 { lemma_prem_zero(psub(k, q, 2), g, r, dg, 2); } else { assert(isdeg(g, 0)); assert(dle(r, 0 - 1)); lemma_dle_pz(r, -1); }
    lemma_padd_laws(pmul(q, g, 2), r, r, 2);
    if q != pz() {
        let e = lemma_deg_ex2(q); lemma_pmul_deg(q, g, e, dg);
        assert forall|j: int| j >= 0 && #[trigger] dle(n, j) implies dle(q, j) by { assert(n(e + dg) == 1); assert(e + dg <= j); }
    } else { lemma_pmul_zero(g, 2); lemma_pz_dle(); }
}
pub proof fn lemma_qsimp(n0: P, d0: P, n1: P, d1: P, g: P)
    requires pol(n0, 2), pol(d0, 2), pol(n1, 2), pol(d1, 2), pol(g, 2), g != pz(), d0 != pz(), pcx(g, n0, d0, 2), pdiv(g, n0, 2), pdiv(g, d0, 2), f2isquot(n0, g, n1), f2isquot(d0, g, d1)
    ensures qlow(n1, d1), qsame(n1, d1, n0, d0), dsub(n1, n0), dsub(d1, d0)
{
    lemma_exact(n0, n1, g); lemma_exact(d0, d1, g);
    // n1 (d1 g) = (n1 g) d1
    lemma_pm3(n1, g, d1); lemma_pmul_comm(g, d1, 2);
    let (u, v) = choose|u: P, v: P| #[trigger] pcxw(g, n0, d0, u, v, 2);
    let s = padd(pmul(u, n1, 2), pmul(v, d1, 2), 2);
    lemma_pmul_assoc(u, n1, g, 2); lemma_pmul_assoc(v, d1, g, 2); lemma_pmul_dist(g, pmul(u, n1, 2), pmul(v, d1, 2), 2);
    assert(pmul(s, g, 2) == g);
    lemma_pol_mul(u, n1, 2); lemma_pol_mul(v, d1, 2); lemma_pol_add(pmul(u, n1, 2), pmul(v, d1, 2), 2); lemma_pol_const(1, 2); lemma_pmul_one(g, 2);
    lemma_pcancel(s, pc(1), g);
    assert(pcxw(pc(1), n1, d1, u, v, 2));
}
pub proof fn lemma_gauss(n1: P, d1: P, n2: P, d2: P) requires pol(n1, 2), pol(d1, 2), pol(n2, 2), pol(d2, 2), pcx(pc(1), n1, d1, 2), qsame(n1, d1, n2, d2) ensures pdiv(d1, d2, 2)
{
    let (u, v) = choose|u: P, v: P| #[trigger] pcxw(pc(1), n1, d1, u, v, 2);
    let a = pmul(u, n1, 2); let b = pmul(v, d1, 2);
    lemma_pmul_dist(d2, a, b, 2); lemma_pmul_one(d2, 2);
    assert(d2 == padd(pmul(a, d2, 2), pmul(b, d2, 2), 2));
    lemma_pmul_assoc(u, n1, d2, 2); lemma_pmul_assoc(u, n2, d1, 2); lemma_pm3(v, d1, d2);
    let q = padd(pmul(u, n2, 2), pmul(v, d2, 2), 2);
    lemma_pol_mul(u, n2, 2); lemma_pol_mul(v, d2, 2); lemma_pol_add(pmul(u, n2, 2), pmul(v, d2, 2), 2);
    lemma_pmul_dist(d1, pmul(u, n2, 2), pmul(v, d2, 2), 2);
    assert(d2 == pmul(q, d1, 2));
}
// lowest terms are unique
pub proof fn lemma_quniq(n1: P, d1: P, n2: P, d2: P) requires pol(n1, 2), pol(d1, 2), pol(n2, 2), pol(d2, 2), qlow(n1, d1), qlow(n2, d2), qsame(n1, d1, n2, d2) ensures n1 == n2, d1 == d2
{
    lemma_gauss(n1, d1, n2, d2); lemma_gauss(n2, d2, n1, d1);
    let k = choose|k: P| pol(k, 2) && d2 == #[trigger] pmul(k, d1, 2); let l = choose|l: P| pol(l, 2) && d1 == #[trigger] pmul(l, d2, 2);
    if k == pz() { lemma_pmul_zero(d1, 2); } if l == pz() { lemma_pmul_zero(d2, 2); }
    let a = lemma_deg_ex2(d1); let b = lemma_deg_ex2(d2); let c = lemma_deg_ex2(k); let e = lemma_deg_ex2(l);
    lemma_pmul_deg(k, d1, c, a); lemma_pmul_deg(l, d2, e, b); lemma_isdeg_uniq(d2, b, c + a); lemma_isdeg_uniq(d1, a, e + b);
    assert forall|j: int| #[trigger] k(j) == pc(1)(j) by {} lemma_peq(k, pc(1)); lemma_pmul_one(d1, 2);
    lemma_pcancel(n1, n2, d1);
}
pub proof fn lemma_qtrans(a: P, b: P, c: P, d: P, e: P, f: P) requires pol(a, 2), pol(b, 2), pol(c, 2), pol(d, 2), pol(e, 2), pol(f, 2), d != pz(), qsame(a, b, c, d), qsame(c, d, e, f) ensures qsame(a, b, e, f)
{
    lemma_pm3(a, f, d); lemma_pm3(c, b, f); lemma_pm3(e, d, b);
    assert(pmul(pmul(a, f, 2), d, 2) == pmul(pmul(c, f, 2), b, 2)); assert(pmul(pmul(e, d, 2), b, 2) == pmul(pmul(e, b, 2), d, 2));
    lemma_pol_mul(a, f, 2); lemma_pol_mul(e, b, 2); lemma_pcancel(pmul(a, f, 2), pmul(e, b, 2), d);
}
pub proof fn lemma_qmul(a: P, b: P, c: P, d: P, a2: P, b2: P, c2: P, d2: P) requires qsame(a, b, c, d), qsame(a2, b2, c2, d2) ensures qsame(pmul(a, a2, 2), pmul(b, b2, 2), pmul(c, c2, 2), pmul(d, d2, 2))
{ lemma_pm4(a, a2, d, d2); lemma_pm4(c, c2, b, b2); }
pub proof fn lemma_qpow(a: P, b: P, c: P, d: P, e: nat) requires pol(a, 2), pol(b, 2), pol(c, 2), pol(d, 2), qsame(a, b, c, d) ensures qsame(ppow(a, e, 2), ppow(b, e, 2), ppow(c, e, 2), ppow(d, e, 2))
{ lemma_ppow_mul(a, d, e, 2); lemma_ppow_mul(c, b, e, 2); }
pub proof fn lemma_ppow_nz(a: P, e: nat) requires pol(a, 2), a != pz() ensures ppow(a, e, 2) != pz(), pol(ppow(a, e, 2), 2) decreases e
{ lemma_pconst(0); lemma_pol_const(1, 2); if e > 0 { lemma_ppow_nz(a, (e - 1) as nat); lemma_pmul_nz(a, ppow(a, (e - 1) as nat, 2)); } }
pub proof fn lemma_qst(x: f2_polyrat_t) requires qst(x) ensures pol(qn(x), 2), pol(qd(x), 2), can(qn(x), 2), can(qd(x), 2), x.numer.parts@.len() >= 1, x.denom.parts@.len() >= 1, pol(pc(1), 2), pol(pz(), 2), pc(1) != pz(), pc(0) == pz(), pc(1int % 2) == pc(1)
{ lemma_f2can(x.numer.parts@); lemma_f2can(x.denom.parts@); lemma_pconst(0); lemma_pol_const(1, 2); }
pub proof fn lemma_qlow1(n: P) requires pol(n, 2) ensures qlow(n, pc(1))
{ lemma_pol_const(1, 2); lemma_pcx_begin(n, pc(1), 2); lemma_pconst(0); }
// lowest terms of n/1, and of zero
pub proof fn lemma_qint(n: P, d: P, m: P) requires pol(n, 2), pol(d, 2), pol(m, 2), qlow(n, d), qsame(n, d, m, pc(1)) ensures n == m, d == pc(1)
{ lemma_qlow1(m); lemma_pol_const(1, 2); lemma_quniq(n, d, m, pc(1)); }
pub proof fn lemma_qeq(x: f2_polyrat_t, y: f2_polyrat_t) requires qok(x), qok(y) ensures (qn(x) == qn(y) && qd(x) == qd(y)) == qsame(qn(x), qd(x), qn(y), qd(y))
{ lemma_qst(x); lemma_qst(y); if qsame(qn(x), qd(x), qn(y), qd(y)) { lemma_quniq(qn(x), qd(x), qn(y), qd(y)); } }
pub proof fn lemma_qzero(n: P, d: P) requires pol(n, 2), pol(d, 2), d != pz(), qlow(n, d) ensures (n == pz()) == qsame(n, d, pz(), pc(1)), n == pz() ==> d == pc(1)
{ lemma_pmul_one(n, 2); lemma_pmul_zero(d, 2); lemma_pol_const(1, 2); lemma_pconst(0); if n == pz() { lemma_qint(n, d, pz()); } }
pub proof fn lemma_qzfrac(n: P, d: P, m: P) requires pol(n, 2), pol(d, 2), pol(m, 2), m != pz(), qlow(n, d), qsame(n, d, pz(), m) ensures n == pz(), d == pc(1)
{ lemma_pmul_zero(d, 2); if n != pz() { lemma_pmul_nz(n, m); } lemma_qzero(n, d); }
pub proof fn lemma_qszb(l: int, e: int) requires l >= 1, e >= 1, 32 * l * e + 64 <= f2max() ensures l <= l * e, e <= l * e, e <= f2max(), 32 * l + 64 <= f2max(), 32 * (64 * l * e) <= 64 * f2max()
{ assert(e <= l * e) by(nonlinear_arith) requires l >= 1, e >= 1; assert(l <= l * e) by(nonlinear_arith) requires l >= 1, e >= 1; assert(32 * l * e == 32 * (l * e)) by(nonlinear_arith); assert(32 * (64 * l * e) == 64 * (32 * (l * e))) by(nonlinear_arith); }
pub proof fn lemma_qxinit(x: P, l: int, e: int, t: P, s1: Seq<u64>, s2: Seq<u64>) requires f2ok(s1), f2ok(s2), t == f2p(s1) || t == f2p(s2), l >= s1.len(), l >= s2.len(), dsub(x, t), e >= 0 ensures f2expinv(pc(1), x, e, 64 * l * e)
{ reveal(dsub);
    lemma_f2can(s1); lemma_f2can(s2); let d = 64 * l;
    assert forall|k: int| k > d implies #[trigger] t(k) == 0 by { }
    assert(dle(t, d)); assert(dle(x, d)); assert(0 + d * e == 64 * l * e);
    assert(f2expinv1(pc(1), x, e, 64 * l * e, 0, d));
}
pub open spec fn qexp(tn: P, td: P, ea: nat, rn: P, rd: P, xn: P, xd: P, e: nat) -> bool { qsame(pmul(rn, ppow(xn, e, 2), 2), pmul(rd, ppow(xd, e, 2), 2), ppow(tn, ea, 2), ppow(td, ea, 2)) }
pub proof fn lemma_qestart(tn: P, td: P, xn: P, xd: P, e: nat) requires pol(tn, 2), pol(td, 2), pol(xn, 2), pol(xd, 2), qsame(xn, xd, tn, td) ensures qexp(tn, td, e, pc(1), pc(1), xn, xd, e)
{ lemma_qpow(xn, xd, tn, td, e); lemma_ppow_can(xn, e, 2); lemma_ppow_can(xd, e, 2); lemma_pmul_one(ppow(xn, e, 2), 2); lemma_pmul_one(ppow(xd, e, 2), 2); }
pub proof fn lemma_qeend(tn: P, td: P, ea: nat, rn: P, rd: P, xn: P, xd: P) requires pol(rn, 2), pol(rd, 2), qexp(tn, td, ea, rn, rd, xn, xd, 0) ensures qsame(rn, rd, ppow(tn, ea, 2), ppow(td, ea, 2))
{ lemma_ppow_0(rn, xn, 2); lemma_ppow_0(rd, xd, 2); }
pub proof fn lemma_qesz(r: f2_polyrat_t, x: f2_polyrat_t, e: int, n: int) requires qok(r), qok(x), e > 0, f2expinv(qn(r), qn(x), e, n), f2expinv(qd(r), qd(x), e, n), 32 * n <= 64 * f2max() ensures qsz(r) + qsz(x) <= f2max() / 4, 2 * qsz(x) <= f2max() / 4
{ lemma_qesz1(r.numer.parts@, x.numer.parts@, e, n); lemma_qesz1(r.denom.parts@, x.denom.parts@, e, n); }
pub proof fn lemma_qesz1(r: Seq<u64>, x: Seq<u64>, e: int, n: int) requires f2ok(r), f2ok(x), e > 0, f2expinv(f2p(r), f2p(x), e, n), 32 * n <= 64 * f2max() ensures r.len() <= f2max() / 32 + 1, x.len() <= f2max() / 32 + 1
{
    let (dr, dx) = choose|dr: int, dx: int| #[trigger] f2expinv1(f2p(r), f2p(x), e, n, dr, dx);
    assert(dx <= dx * e) by(nonlinear_arith) requires e >= 1, dx >= 0;
    lemma_f2len(r, dr); lemma_f2len(x, dx);
}
pub proof fn lemma_qedeg1(r: P, x: P, r2: P, x2: P, e: int, n: int) requires can(r, 2), can(x, 2), e > 0, f2expinv(r, x, e, n), e % 2 == 1 ==> dsub(r2, pmul(r, x, 2)), e % 2 == 0 ==> r2 == r, dsub(x2, pmul(x, x, 2)) ensures f2expinv(r2, x2, e / 2, n)
{ reveal(dsub);
    let (dr, dx) = choose|dr: int, dx: int| #[trigger] f2expinv1(r, x, e, n, dr, dx); let h = e / 2;
    lemma_pmul_dle(x, x, dx, dx, 2); lemma_pmul_dle(r, x, dr, dx, 2); assert(dle(x2, dx + dx));
    if e % 2 == 1 { assert(dr + dx + (dx + dx) * h == dr + dx * e) by(nonlinear_arith) requires e == 2 * h + 1; assert(dle(r2, dr + dx)); assert(f2expinv1(r2, x2, h, n, dr + dx, dx + dx)); }
    else { assert(dr + (dx + dx) * h == dr + dx * e) by(nonlinear_arith) requires e == 2 * h; assert(f2expinv1(r2, x2, h, n, dr, dx + dx)); }
}
pub open spec fn qprod(z: f2_polyrat_t, x: f2_polyrat_t, y: f2_polyrat_t) -> bool { qsame(qn(z), qd(z), pmul(qn(x), qn(y), 2), pmul(qd(x), qd(y), 2)) && dsub(qn(z), pmul(qn(x), qn(y), 2)) && dsub(qd(z), pmul(qd(x), qd(y), 2)) }
pub proof fn lemma_qedeg(r0: f2_polyrat_t, x0: f2_polyrat_t, r: f2_polyrat_t, x: f2_polyrat_t, e: int, n: int)
    requires qok(r0), qok(x0), qok(r), qok(x), e > 0, f2expinv(qn(r0), qn(x0), e, n), f2expinv(qd(r0), qd(x0), e, n), e % 2 == 1 ==> qprod(r, r0, x0), e % 2 == 0 ==> r == r0, qprod(x, x0, x0)
    ensures f2expinv(qn(r), qn(x), e / 2, n), f2expinv(qd(r), qd(x), e / 2, n)
{ lemma_qst(r0); lemma_qst(x0); lemma_qedeg1(qn(r0), qn(x0), qn(r), qn(x), e, n); lemma_qedeg1(qd(r0), qd(x0), qd(r), qd(x), e, n); }
pub proof fn lemma_qestep(tn: P, td: P, ea: nat, r0: f2_polyrat_t, x0: f2_polyrat_t, r: f2_polyrat_t, x: f2_polyrat_t, e: int)
    requires pol(tn, 2), pol(td, 2), td != pz(), qok(r0), qok(x0), qok(r), qok(x), e > 0, qexp(tn, td, ea, qn(r0), qd(r0), qn(x0), qd(x0), e as nat), e % 2 == 1 ==> qprod(r, r0, x0), e % 2 == 0 ==> r == r0, qprod(x, x0, x0)
    ensures qexp(tn, td, ea, qn(r), qd(r), qn(x), qd(x), (e / 2) as nat)
{
    lemma_qst(r0); lemma_qst(x0); lemma_qst(r); lemma_qst(x);
    let h = (e / 2) as nat; let xn2 = pmul(qn(x0), qn(x0), 2); let xd2 = pmul(qd(x0), qd(x0), 2);
    let an = if e % 2 == 1 { pmul(qn(r0), qn(x0), 2) } else { qn(r0) }; let ad = if e % 2 == 1 { pmul(qd(r0), qd(x0), 2) } else { qd(r0) };
    lemma_ppow_step(qn(r0), qn(x0), e, 2); lemma_ppow_step(qd(r0), qd(x0), e, 2);
    lemma_pol_mul(qn(x0), qn(x0), 2); lemma_pmul_nz(qd(x0), qd(x0)); lemma_pol_mul(qn(r0), qn(x0), 2); lemma_pmul_nz(qd(r0), qd(x0));
    assert(qsame(qn(r), qd(r), an, ad));
    lemma_qpow(qn(x), qd(x), xn2, xd2, h);
    lemma_qmul(qn(r), qd(r), an, ad, ppow(qn(x), h, 2), ppow(qd(x), h, 2), ppow(xn2, h, 2), ppow(xd2, h, 2));
    lemma_pol_pow(qn(x), h, 2); lemma_pol_pow(qd(x), h, 2); lemma_pol_pow(xn2, h, 2); lemma_ppow_nz(xd2, h); lemma_pol_pow(tn, ea, 2); lemma_pol_pow(td, ea, 2);
    lemma_pol_mul(qn(r), ppow(qn(x), h, 2), 2); lemma_pol_mul(qd(r), ppow(qd(x), h, 2), 2); lemma_pol_mul(an, ppow(xn2, h, 2), 2); lemma_pmul_nz(ad, ppow(xd2, h, 2));
    lemma_qtrans(pmul(qn(r), ppow(qn(x), h, 2), 2), pmul(qd(r), ppow(qd(x), h, 2), 2), pmul(an, ppow(xn2, h, 2), 2), pmul(ad, ppow(xd2, h, 2), 2), ppow(tn, ea, 2), ppow(td, ea, 2));
}
#[verifier::opaque]
pub open spec fn qinv(tn: P, td: P, ea: int, rv: f2_polyrat_t, xp: f2_polyrat_t, e: int, nn: int) -> bool {
    ea >= 0 && e >= 0 && qok(rv) && qok(xp) && pol(tn, 2) && pol(td, 2) && td != pz() && f2expinv(qn(rv), qn(xp), e, nn) && f2expinv(qd(rv), qd(xp), e, nn) && 32 * nn <= 64 * f2max() && qexp(tn, td, ea as nat, qn(rv), qd(rv), qn(xp), qd(xp), e as nat)
}
pub proof fn lemma_qinv_start(tn: P, td: P, ea: int, rv: f2_polyrat_t, xp: f2_polyrat_t, l: int, s1: Seq<u64>, s2: Seq<u64>)
    requires qok(rv), qok(xp), qn(rv) == pc(1), qd(rv) == pc(1), f2ok(s1), f2ok(s2), tn == f2p(s1) || tn == f2p(s2), td == f2p(s1) || td == f2p(s2), td != pz(), l >= s1.len(), l >= s2.len(), dsub(qn(xp), tn), dsub(qd(xp), td), ea >= 0, qsame(qn(xp), qd(xp), tn, td), 32 * qnn(l, ea) <= 64 * f2max()
    ensures qinv(tn, td, ea, rv, xp, ea, qnn(l, ea))
{
    reveal(qinv); reveal(qnn); lemma_f2can(s1); lemma_f2can(s2); assert(s1.len() >= 1 && s2.len() >= 1); lemma_qst(xp); lemma_qst(rv);
    lemma_qxinit(qn(xp), l, ea, tn, s1, s2); lemma_qxinit(qd(xp), l, ea, td, s1, s2); lemma_qestart(tn, td, qn(xp), qd(xp), ea as nat);
}
pub proof fn lemma_qinv_top(tn: P, td: P, ea: int, rv: f2_polyrat_t, xp: f2_polyrat_t, e: int, nn: int) requires qinv(tn, td, ea, rv, xp, e, nn) ensures e >= 0, qok(rv), qok(xp), e > 0 ==> qsz(rv) + qsz(xp) <= f2max() / 4 && 2 * qsz(xp) <= f2max() / 4
{ reveal(qinv); if e > 0 { lemma_qesz(rv, xp, e, nn); } }
pub proof fn lemma_qinv_step(tn: P, td: P, ea: int, r0: f2_polyrat_t, x0: f2_polyrat_t, rv: f2_polyrat_t, xp: f2_polyrat_t, e: int, nn: int)
    requires qinv(tn, td, ea, r0, x0, e, nn), e > 0, qok(rv), qok(xp), e % 2 == 1 ==> qprod(rv, r0, x0), e % 2 == 0 ==> rv == r0, qprod(xp, x0, x0) ensures qinv(tn, td, ea, rv, xp, e / 2, nn)
{ reveal(qinv); lemma_qestep(tn, td, ea as nat, r0, x0, rv, xp, e); lemma_qedeg(r0, x0, rv, xp, e, nn); }
pub proof fn lemma_qinv_end(tn: P, td: P, ea: int, rv: f2_polyrat_t, xp: f2_polyrat_t, nn: int) requires qinv(tn, td, ea, rv, xp, 0, nn) ensures qok(rv), qsame(qn(rv), qd(rv), ppow(tn, ea as nat, 2), ppow(td, ea as nat, 2))
{ reveal(qinv); lemma_qst(rv); lemma_qst(xp); lemma_qeend(tn, td, ea as nat, qn(rv), qd(rv), qn(xp), qd(xp)); }
pub proof fn lemma_dsub_refl(a: P) ensures dsub(a, a) { reveal(dsub); }
pub open spec fn qabs(e: int) -> int { if e >= 0 { e } else { -e } }
#[verifier::opaque]
pub open spec fn qnn(l: int, ea: int) -> int { 64 * l * ea }
#[verifier::opaque]
pub open spec fn qbnd(l: int, ea: int) -> bool { 32 * l * ea + 64 <= f2max() }
pub proof fn lemma_qbnd(x: f2_polyrat_t, e: int) requires qok(x), e == 0 || qbnd(qln(x), qabs(e))
    ensures e != 0 ==> e > -2147483647 && 4 * qsz(x) + 16 <= f2max(), 32 * qnn(qln(x), qabs(e)) <= 64 * f2max(), (qn(x) == pz()) == (qn(x) == pz() && qd(x) == pc(1)), pmul(pc(1), qn(x), 2) == qn(x), pmul(pc(1), qd(x), 2) == qd(x), pc(1int % 2) == pc(1), pc(0int % 2) == pz()
{ reveal(qnn); reveal(qbnd); lemma_qst(x); if e != 0 { lemma_qszb(qln(x), qabs(e)); } else { assert(64 * qln(x) * 0 == 0); } lemma_qzero(qn(x), qd(x)); lemma_pmul_one(qn(x), 2); lemma_pmul_one(qd(x), 2); }
