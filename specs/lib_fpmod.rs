// ---- residue classes of Fp[x] modulo m, p prime
pub open spec fn fmr(x: fp_polymod_t) -> P { fpp(x.residue) }
pub open spec fn fmm(x: fp_polymod_t) -> P { fpp(x.modulus) }
pub open spec fn fmp(x: fp_polymod_t) -> int { fpm(x.modulus) }
pub open spec fn fmst(x: fp_polymod_t) -> bool { fpst(x.residue) && fpst(x.modulus) }
// a modulus: degree at least 1 over a prime field
pub open spec fn fmmod(m: fp_poly_t) -> bool { fpok(m) && fld(fpm(m)) && m.degree >= 1 && 4 * m.degree < fpmax() - 8 }
// canonical storage: residue of lower degree than the modulus
pub open spec fn fmok(x: fp_polymod_t) -> bool { fmmod(x.modulus) && fpok(x.residue) && fpm(x.residue) == fmp(x) && prem(fmr(x), fmm(x)) }
pub open spec fn fmhas(x: fp_polymod_t, y: fp_polymod_t) -> bool { fmok(x) && fmp(x) == fmp(y) && fmm(x) == fmm(y) && x.modulus.degree == y.modulus.degree }
pub open spec fn fmres(x: fp_polymod_t, y: fp_polymod_t, a: P) -> bool { fmhas(x, y) && pisrem(a, fmm(y), fmr(x), fmp(y)) }
pub open spec fn fmmix(x: fp_polymod_t, y: fp_polymod_t) -> bool { fmp(x) != fmp(y) || fmm(x) != fmm(y) }
pub open spec fn fmunit(x: fp_polymod_t) -> bool { pcop(fmr(x), fmm(x), fmp(x)) }
pub open spec fn fminv(x: fp_polymod_t, y: P) -> bool { pcong(pmul(y, fmr(x), fmp(x)), pc(1), fmm(x), fmp(x)) }
pub open spec fn pquotm(q: P, b: P, a: P, m: P, p: int) -> bool { pcong(pmul(q, b, p), a, m, p) }
pub proof fn lemma_fld_nozd(p: int) requires p >= 2, fld(p) ensures nozd(p)
{
    assert forall|x: int, y: int| 0 < x < p && 0 < y < p implies #[trigger] mul(x, y) % p != 0 by {
        if mul(x, y) % p == 0 { assert(coprime(p, x)); lemma_divides_mod(p, x * y); lemma_gauss(p, x, y); lemma_divides_mod(p, y); lemma_small_mod(y as nat, p as nat); }
    }
}
pub proof fn lemma_pisrm(a: P, m: P, r: P, p: int) requires pisrm(a, m, r, p) ensures pisrem(a, m, r, p)
{ let q = choose|q: P| #[trigger] pdivs(a, m, q, r, p) && pol(q, p); lemma_pcong_intro(a, r, m, q, p); }
pub proof fn lemma_fmok(x: fp_polymod_t) requires fmok(x)
    ensures nozd(fmp(x)), fmp(x) >= 2, pol(fmr(x), fmp(x)), pol(fmm(x), fmp(x)), can(fmr(x), fmp(x)), can(fmm(x), fmp(x)), isdeg(fmm(x), x.modulus.degree as int), fmm(x) != pz(), x.residue.degree < x.modulus.degree, dle(fmr(x), x.modulus.degree - 1), coprime(fmp(x), x.modulus.coeffs.v@[x.modulus.degree as int].residue as int), isdeg(fmr(x), x.residue.degree as int)
{
    lemma_fplead(x.residue); lemma_fplead(x.modulus); lemma_fld_nozd(fmp(x));
    assert(fmm(x)(x.modulus.degree as int) != 0);
    lemma_fprem_deg(x.residue, x.modulus);
}
// the remainder of an already reduced value
pub proof fn lemma_pmsame(a: P, m: P, r: P, d: int, p: int) requires p >= 2, nozd(p), pol(a, p), pol(m, p), pol(r, p), isdeg(m, d), d > 0, dle(a, d - 1), pisrem(a, m, r, p) ensures r == a
{
    let q = choose|q: P| pol(q, p) && a == padd(#[trigger] pmul(q, m, p), r, p);
    let u = pmul(q, m, p); lemma_pmul_can(q, m, p);
    lemma_padd_laws(u, r, r, p); lemma_padd_laws(r, u, r, p);
    assert(psub(a, r, p) == u);
    assert(dle(r, d - 1)); lemma_small_mod(0, p as nat);
    assert forall|x: int| #[trigger] isdeg(m, x) implies dle(u, x - 1) by { lemma_isdeg_uniq(m, x, d); assert forall|k: int| k > d - 1 implies #[trigger] u(k) == 0 by { assert(psub(a, r, p)(k) == (a(k) - r(k)) % p); } }
    lemma_prem_zero(q, m, u, d, p);
    lemma_padd_laws(r, r, r, p);
}
pub proof fn lemma_fmself(x: fp_polymod_t, a: P) requires fmok(x), can(a, fmp(x)), dle(a, x.modulus.degree - 1), x.modulus.degree >= 1
    ensures pol(a, fmp(x)), pisrem(a, fmm(x), fmr(x), fmp(x)) ==> fmr(x) == a, pisrem(a, fmm(x), a, fmp(x)), prem(a, fmm(x))
{
    let p = fmp(x); lemma_fmok(x); lemma_pcong_refl(a, fmm(x), p); assert(dle(a, x.modulus.degree - 1)); assert(pol(a, p));
    assert forall|d: int| #[trigger] isdeg(fmm(x), d) implies dle(a, d - 1) by { lemma_isdeg_uniq(fmm(x), d, x.modulus.degree as int); }
    if pisrem(a, fmm(x), fmr(x), p) { lemma_pmsame(a, fmm(x), fmr(x), x.modulus.degree as int, p); }
}
pub proof fn lemma_pscale_pc(c: int, a: P, p: int) requires p >= 2, can(a, p) ensures pscale(a, c, p) == pmul(pc(c), a, p)
{ lemma_peq(pmono(c, 0), pc(c)); lemma_pmul_mono(c, 0, a, p); assert forall|k: int| #[trigger] pscale(a, c, p)(k) == pmul(pc(c), a, p)(k) by { assert(k - 0 == k); } lemma_peq(pscale(a, c, p), pmul(pc(c), a, p)); }
pub proof fn lemma_pscale_1(a: P, p: int) requires p >= 2, can(a, p) ensures pscale(a, 1, p) == a, pscale(a, 0, p) == pz()
{
    lemma_small_mod(0, p as nat);
    assert forall|k: int| #[trigger] pscale(a, 1, p)(k) == a(k) by { assert(0 <= a(k) < p); lemma_small_mod(a(k) as nat, p as nat); } lemma_peq(pscale(a, 1, p), a);
    assert forall|k: int| #[trigger] pscale(a, 0, p)(k) == pz()(k) by { assert(0 * a(k) == 0) by(nonlinear_arith); } lemma_peq(pscale(a, 0, p), pz());
}
pub proof fn lemma_pscale_next(a: P, i: int, p: int) requires p >= 2, can(a, p) ensures padd(pscale(a, i, p), a, p) == pscale(a, i + 1, p)
{
    assert forall|k: int| #[trigger] padd(pscale(a, i, p), a, p)(k) == pscale(a, i + 1, p)(k) by { let x = a(k); assert((i + 1) * x == i * x + x) by(nonlinear_arith); lemma_add_mod_noop(i * x, x, p); assert(0 <= x < p); lemma_small_mod(x as nat, p as nat); }
    lemma_peq(padd(pscale(a, i, p), a, p), pscale(a, i + 1, p));
}
pub proof fn lemma_pscale_mod(a: P, v: int, p: int) requires p >= 2 ensures pscale(a, v % p, p) == pscale(a, v, p)
{ assert forall|k: int| #[trigger] pscale(a, v % p, p)(k) == pscale(a, v, p)(k) by { lemma_mulmod(v, a(k), p); } lemma_peq(pscale(a, v % p, p), pscale(a, v, p)); }
// gcd g of degree 0 with inverse ci: scaling the coefficient u of a gives an inverse
pub proof fn lemma_pcomb_scale(a: P, m: P, g: P, u: P, v: P, ci: int, p: int)
    requires p >= 2, pol(a, p), pol(m, p), pol(u, p), pol(v, p), can(g, p), isdeg(g, 0), 0 <= ci < p, is_inv(g(0), ci, p), pcomb(g, a, m, u, v, p)
    ensures pcomb(pc(1), a, m, pscale(u, ci, p), pscale(v, ci, p), p), pol(pscale(u, ci, p), p), pol(pscale(v, ci, p), p)
{
    lemma_pol_const(ci, p); lemma_pscale_pc(ci, u, p); lemma_pscale_pc(ci, v, p); lemma_pol_mul(pc(ci), u, p); lemma_pol_mul(pc(ci), v, p);
    lemma_pmul_assoc(pc(ci), u, a, p); lemma_pmul_assoc(pc(ci), v, m, p); lemma_pmul_dist(pc(ci), pmul(u, a, p), pmul(v, m, p), p);
    lemma_deg0(g); lemma_pmul_pc(ci, g(0), p); lemma_mulc(g(0), ci); 
    assert(pmul(pc(ci), g, p) == pc(1));
}
pub proof fn lemma_pcop_unit(a: P, m: P, g: P, ci: int, p: int) requires p >= 2, pol(a, p), pol(m, p), pol(g, p), isdeg(g, 0), 0 <= ci < p, is_inv(g(0), ci, p), pgcd(g, a, m, p) ensures pcop(a, m, p)
{
    lemma_pol_const(1, p); lemma_pol_const(ci, p); lemma_deg0(g); lemma_pmul_pc(ci, g(0), p); lemma_mulc(g(0), ci); lemma_pmul_one(a, p); lemma_pmul_one(m, p);
    lemma_pdiv_intro(pc(1), a, a, p); lemma_pdiv_intro(pc(1), m, m, p);
    assert forall|e: P| pol(e, p) && pdiv(e, a, p) && pdiv(e, m, p) implies #[trigger] pdiv(e, pc(1), p) by { assert(pdiv(e, g, p)); lemma_pdiv_lin(e, g, g, pc(ci), p); assert(pmul(pc(ci), g, p) == pc(1)); }
}
pub proof fn lemma_fmeq(x: fp_polymod_t, y: fp_polymod_t) requires fmok(x), fmok(y), fmm(x) == fmm(y) ensures x.modulus.degree == y.modulus.degree { lemma_fmok(x); lemma_fmok(y); lemma_isdeg_uniq(fmm(x), x.modulus.degree as int, y.modulus.degree as int); }
