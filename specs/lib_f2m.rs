// ---- residue classes of binary polynomials
pub open spec fn f2r(x: f2_polymod_t) -> P { f2p(x.residue.parts@) }
pub open spec fn f2m(x: f2_polymod_t) -> P { f2p(x.modulus.parts@) }
pub open spec fn f2msz(m: Seq<u64>) -> bool { f2ok(m) && 8 * m.len() + 8 <= f2max() }
// canonical storage of a residue class: degree >= 1 modulus, residue of lower degree
pub open spec fn f2mok(x: f2_polymod_t) -> bool { f2msz(x.modulus.parts@) && f2deg(x.modulus.parts@) >= 1 && f2ok(x.residue.parts@) && prem(f2r(x), f2m(x)) }
pub open spec fn f2mres(x: f2_polymod_t, m: P, a: P) -> bool { f2mok(x) && f2m(x) == m && pisrem(a, m, f2r(x), 2) }
pub proof fn lemma_f2mok(x: f2_polymod_t) requires f2mok(x) ensures x.residue.parts@.len() <= x.modulus.parts@.len(), pol(f2r(x), 2), pol(f2m(x), 2), can(f2r(x), 2), can(f2m(x), 2), isdeg(f2m(x), f2deg(x.modulus.parts@)), f2m(x) != pz(), x.modulus.parts@.len() >= 1, x.residue.parts@.len() >= 1
{
    lemma_f2can(x.residue.parts@); lemma_f2can(x.modulus.parts@); lemma_f2isdeg(x.modulus.parts@);
    assert(f2m(x)(f2deg(x.modulus.parts@)) != 0);
    if f2r(x) != pz() { lemma_rem_deg(x.residue.parts@, x.modulus.parts@); } else { assert(dle(pz(), 0)); lemma_f2len(x.residue.parts@, 0); }
}
pub proof fn lemma_f2isrem(a: P, m: P, r: P) requires f2isrem(a, m, r) ensures pisrem(a, m, r, 2)
{ let q = choose|q: P| #[trigger] f2div(a, m, q, r) && pol(q, 2); lemma_pcong_intro(a, r, m, q, 2); }
pub proof fn lemma_f2deg_nz(s: Seq<u64>) requires s.len() >= 1 ensures f2deg(s) >= 1 ==> f2p(s) != pz(), f2p(s) != pz() && f2deg(s) == 0 ==> f2p(s) == pc(1)
{
    lemma_f2isdeg(s); lemma_f2can(s); let d = f2deg(s);
    if d >= 1 { assert(f2p(s)(d) != 0); }
    if f2p(s) != pz() && d == 0 { lemma_deg1(s, 0); assert forall|k: int| #[trigger] f2p(s)(k) == pc(1)(k) by {} lemma_peq(f2p(s), pc(1)); }
}
pub proof fn lemma_pcof1(v: int, a: P) requires forall|k: int| #[trigger] a(k) == pcof(0, 0, v)(k) ensures a == pc(v % 2) { assert forall|k: int| #[trigger] a(k) == pc(v % 2)(k) by {} lemma_peq(a, pc(v % 2)); }
// the residue of an already reduced value
pub proof fn lemma_f2msame(a: P, m: P, r: P, d: int) requires pol(a, 2), pol(m, 2), pol(r, 2), isdeg(m, d), d > 0, prem(a, m), pisrem(a, m, r, 2) ensures r == a
{
    lemma_nozd2();
    let q = choose|q: P| pol(q, 2) && a == padd(#[trigger] pmul(q, m, 2), r, 2);
    let u = pmul(q, m, 2); lemma_pmul_can(q, m, 2);
    lemma_padd_laws(u, r, r, 2); lemma_padd_laws(r, u, r, 2);
    assert(psub(a, r, 2) == u);
    assert(dle(a, d - 1) && dle(r, d - 1));
    assert forall|x: int| #[trigger] isdeg(m, x) implies dle(u, x - 1) by { lemma_isdeg_uniq(m, x, d); assert forall|k: int| k > d - 1 implies #[trigger] u(k) == 0 by { assert(psub(a, r, 2)(k) == (a(k) - r(k)) % 2); } }
    lemma_prem_zero(q, m, u, d, 2);
    lemma_padd_laws(r, r, r, 2);
}
pub proof fn lemma_prem_pz(m: P) ensures prem(pz(), m) { assert forall|d: int| #[trigger] isdeg(m, d) implies dle(pz(), d - 1) by { } }
pub proof fn lemma_prem_one(m: P, d: int) requires isdeg(m, d), d > 0 ensures prem(pc(1), m) { assert forall|x: int| #[trigger] isdeg(m, x) implies dle(pc(1), x - 1) by { lemma_isdeg_uniq(m, x, d); } }
pub proof fn lemma_f2len_mul(a: Seq<u64>, b: Seq<u64>) ensures true {}
pub open spec fn f2mix(x: f2_polymod_t, y: f2_polymod_t) -> bool { f2m(x) != f2m(y) }
pub proof fn lemma_f2meq(x: f2_polymod_t, y: f2_polymod_t) requires f2ok(x.modulus.parts@), f2ok(y.modulus.parts@), f2m(x) == f2m(y) ensures x.modulus.parts@ == y.modulus.parts@ { lemma_f2canon(x.modulus.parts@, y.modulus.parts@); }
pub open spec fn f2mult(x: f2_polymod_t, c: int) -> P { if c % 2 == 1 { f2r(x) } else { pz() } }
pub open spec fn f2unit(x: f2_polymod_t) -> bool { pcop(f2r(x), f2m(x), 2) }
pub open spec fn f2inv(x: f2_polymod_t, y: P) -> bool { pcong(pmul(y, f2r(x), 2), pc(1), f2m(x), 2) }
pub proof fn lemma_f2mexp_init(m: P, d: int, one: P) requires pol(m, 2), isdeg(m, d), d > 0, pol(one, 2), pisrem(pc(1), m, one, 2) ensures pcong(pc(1), one, m, 2), one == pc(1)
{ lemma_pc01(0); lemma_prem_one(m, d); lemma_f2msame(pc(1), m, one, d); }
pub proof fn lemma_f2zero_res(m: P, d: int, z: P) requires pol(m, 2), isdeg(m, d), d > 0, pol(z, 2), pisrem(pz(), m, z, 2) ensures z == pz() { lemma_pc01(0); lemma_prem_pz(m); lemma_f2msame(pz(), m, z, d); }
