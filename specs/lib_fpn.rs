// ---- F(p^n)[x]: coefficient sequences over Fp[t]/m.  ge: a reduced residue in the ring of y; gcf: k-th coefficient as a polynomial over Fp, zero beyond the degree.
pub open spec fn gnmax() -> int { 0x10000000 }
pub open spec fn gv(a: fp_polymod_t, b: fp_polymod_t) -> bool { fmst(a) && fmr(a) == fmr(b) && fmm(a) == fmm(b) && fmp(a) == fmp(b) && a.modulus.degree == b.modulus.degree && (fmok(b) ==> fmok(a)) }
pub open spec fn ge(x: fp_polymod_t, y: fp_polymod_t) -> bool { fmhas(x, y) }
pub open spec fn gcells(s: Seq<fp_polymod_t>) -> bool { forall|k: int| 0 <= k < s.len() ==> fmst(#[trigger] s[k]) }
pub open spec fn gnst(x: fpn_poly_t) -> bool { x.coeffs.st is Live && 0 <= x.degree <= gnmax() && x.degree < x.coeffs.v@.len() && gcells(x.coeffs.v@) }
pub open spec fn gm(x: fpn_poly_t) -> fp_polymod_t { x.coeffs.v@[0] }
pub open spec fn gp(x: fpn_poly_t) -> int { fmp(x.coeffs.v@[0]) }
pub open spec fn ghm(x: fpn_poly_t, y: fpn_poly_t) -> bool { fmhas(gm(x), gm(y)) }
pub open spec fn gnel(x: fpn_poly_t, y: fp_polymod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> ge(#[trigger] x.coeffs.v@[k], y) }
pub open spec fn gnok(x: fpn_poly_t) -> bool { gnst(x) && gnel(x, gm(x), x.degree + 1) }
pub open spec fn gnlead(x: fpn_poly_t) -> bool { x.degree > 0 ==> fmr(x.coeffs.v@[x.degree as int]) != pz() }
pub open spec fn gcf(x: fpn_poly_t, k: int) -> P { if 0 <= k <= x.degree { fmr(x.coeffs.v@[k]) } else { pz() } }
pub open spec fn gnsame(a: fpn_poly_t, b: fpn_poly_t, n: int) -> bool { forall|k: int| #![trigger a.coeffs.v@[k]] #![trigger b.coeffs.v@[k]] 0 <= k < n ==> gv(a.coeffs.v@[k], b.coeffs.v@[k]) }
pub open spec fn gneq(a: fpn_poly_t, b: fpn_poly_t) -> bool { a.degree == b.degree && gnsame(a, b, b.degree + 1) }
pub open spec fn gnadd(r: fpn_poly_t, a: fpn_poly_t, b: fpn_poly_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> ge(#[trigger] r.coeffs.v@[k], gm(a)) && fmr(r.coeffs.v@[k]) == padd(gcf(a, k), gcf(b, k), gp(a)) }
pub open spec fn gnsub(r: fpn_poly_t, a: fpn_poly_t, b: fpn_poly_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> ge(#[trigger] r.coeffs.v@[k], gm(a)) && fmr(r.coeffs.v@[k]) == psub(gcf(a, k), gcf(b, k), gp(a)) }
pub open spec fn gnmuls(r: fpn_poly_t, a: fpn_poly_t, s: fp_polymod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> fmres(#[trigger] r.coeffs.v@[k], gm(a), pmul(gcf(a, k), fmr(s), gp(a))) }
pub open spec fn gnmuli(r: fpn_poly_t, a: fpn_poly_t, s: int, n: int) -> bool { forall|k: int| 0 <= k < n ==> ge(#[trigger] r.coeffs.v@[k], gm(a)) && fmr(r.coeffs.v@[k]) == pscale(gcf(a, k), s, gp(a)) }
pub open spec fn gndivs(r: fpn_poly_t, a: fpn_poly_t, s: fp_polymod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> ge(#[trigger] r.coeffs.v@[k], gm(a)) && pcong(pmul(fmr(r.coeffs.v@[k]), fmr(s), gp(a)), gcf(a, k), fmm(gm(a)), gp(a)) }
pub open spec fn gnfrom(r: fpn_poly_t, a: fpn_poly_t, n: int) -> bool { forall|k: int| n <= k <= a.degree ==> gv(#[trigger] r.coeffs.v@[k], a.coeffs.v@[k]) }
pub proof fn lemma_gnz(x: fp_polymod_t)
    requires fmok(x),
    ensures padd(fmr(x), pz(), fmp(x)) == fmr(x), padd(pz(), fmr(x), fmp(x)) == fmr(x), psub(fmr(x), pz(), fmp(x)) == fmr(x), psub(pz(), fmr(x), fmp(x)) == pneg(fmr(x), fmp(x)), pisrem(pz(), fmm(x), pz(), fmp(x)), padd(pz(), pz(), fmp(x)) == pz(), psub(pz(), pz(), fmp(x)) == pz(), pneg(pz(), fmp(x)) == pz(),
        psub(fmr(x), fmr(x), fmp(x)) == pz(), fmres(x, x, fmr(x)), can(pz(), fmp(x)),
{
    lemma_fmok(x); let p = fmp(x); lemma_pol_const(0, p); lemma_padd_laws(fmr(x), pz(), pz(), p); lemma_padd_laws(pz(), pz(), pz(), p);
    lemma_pcong_refl(fmr(x), fmm(x), p); lemma_pcong_refl(pz(), fmm(x), p); lemma_gprem0(fmm(x)); lemma_padd_laws(pz(), fmr(x), pz(), p);
}
pub proof fn lemma_gprem0(m: P) ensures prem(pz(), m) { assert forall|d: int| #[trigger] isdeg(m, d) implies dle(pz(), d - 1) by { } }
pub proof fn lemma_gcells(s: Seq<fp_polymod_t>) requires forall|k: int| 0 <= k < s.len() ==> dflt_fp_polymod_t(#[trigger] s[k]) ensures gcells(s) { assert forall|k: int| 0 <= k < s.len() implies fmst(#[trigger] s[k]) by { assert(dflt_fp_polymod_t(s[k])); } }
// ---- products
pub open spec fn gnq(x: fpn_poly_t) -> PQ { |k: int| gcf(x, k) }
pub open spec fn gnpart(r: fpn_poly_t, a: fpn_poly_t, b: fpn_poly_t, i: int, j: int) -> bool { forall|k: int| 0 <= k <= r.degree ==> fmres(#[trigger] r.coeffs.v@[k], gm(a), mpart(gnq(a), gnq(b), k, i, j, gp(a))) }
pub proof fn lemma_gnrow(r: fpn_poly_t, a: fpn_poly_t, b: fpn_poly_t, i: int)
    requires gnpart(r, a, b, i, b.degree + 1), 0 <= i, fmok(gm(a)) ensures gnpart(r, a, b, i + 1, 0)
{
    lemma_fmok(gm(a));
    assert forall|k: int| 0 <= k <= r.degree implies fmres(#[trigger] r.coeffs.v@[k], gm(a), mpart(gnq(a), gnq(b), k, i + 1, 0, gp(a))) by { if !(0 <= k - i < b.degree + 1) { assert(gnq(b)(k - i) == pz()); lemma_msum_skip(gnq(a), gnq(b), k, i, gp(a)); } }
}
pub proof fn lemma_gncell(x: fp_polymod_t, y: fp_polymod_t, u: fp_polymod_t, w: fp_polymod_t, z: fp_polymod_t, a: PQ, b: PQ, k: int, i: int, g: fp_polymod_t)
    requires i >= 0, fmok(g), fmres(x, g, msum(a, b, k, i, fmp(g))), fmhas(y, g), fmhas(u, g), fmr(y) == a(i), fmr(u) == b(k - i), fmres(w, g, pmul(fmr(y), fmr(u), fmp(g))), fmres(z, g, padd(fmr(x), fmr(w), fmp(g)))
    ensures fmres(z, g, msum(a, b, k, i + 1, fmp(g)))
{
    let p = fmp(g); lemma_fmok(g); lemma_fmok(x); lemma_fmok(w); lemma_fmok(z); lemma_msum_can(a, b, k, i, p); lemma_pmul_can(fmr(y), fmr(u), p);
    lemma_mstep(msum(a, b, k, i, p), fmr(x), pmul(a(i), b(k - i), p), fmr(w), fmr(z), fmm(g), p);
}
pub proof fn lemma_gncan(x: fpn_poly_t) requires gnok(x) ensures forall|j: int| can(#[trigger] gnq(x)(j), gp(x)) { assert(ge(x.coeffs.v@[0], gm(x))); lemma_gnz(gm(x)); assert forall|j: int| can(#[trigger] gnq(x)(j), gp(x)) by { if 0 <= j <= x.degree { assert(ge(x.coeffs.v@[j], gm(x))); lemma_fmok(x.coeffs.v@[j]); } } }
pub proof fn lemma_gnhor(r: fp_polymod_t, s: fp_polymod_t, t: fp_polymod_t, x: fpn_poly_t, c: fp_polymod_t, k: int)
    requires gnok(x), ge(c, gm(x)), 0 <= k < x.degree, fmres(r, gm(x), mhor(gnq(x), fmr(c), k + 1, x.degree as int, gp(x))), fmres(s, gm(x), pmul(fmr(r), fmr(c), gp(x))), fmres(t, gm(x), padd(fmr(s), gcf(x, k), gp(x)))
    ensures fmres(t, gm(x), mhor(gnq(x), fmr(c), k, x.degree as int, gp(x)))
{
    let m = fmm(gm(x)); let p = gp(x); let d = x.degree as int; let e = x.coeffs.v@[k]; let h = mhor(gnq(x), fmr(c), k + 1, d, p);
    assert(ge(e, gm(x))); lemma_fmok(r); lemma_fmok(s); lemma_fmok(t); lemma_fmok(c); lemma_fmok(e); lemma_gncan(x); lemma_mhor_can(gnq(x), fmr(c), k + 1, d, p);
    lemma_pcong_mulr(h, fmr(r), fmr(c), m, p); lemma_pmul_can(h, fmr(c), p); lemma_pmul_can(fmr(r), fmr(c), p);
    lemma_pcong_trans(pmul(h, fmr(c), p), pmul(fmr(r), fmr(c), p), fmr(s), m, p);
    lemma_pcong_addr(pmul(h, fmr(c), p), fmr(s), gcf(x, k), m, p); lemma_padd_can(fmr(s), gcf(x, k), p);
    lemma_pcong_trans(padd(pmul(h, fmr(c), p), gcf(x, k), p), padd(fmr(s), gcf(x, k), p), fmr(t), m, p);
    assert(gnq(x)(k) == gcf(x, k));
}
// ---- comparison
pub open spec fn gndir(a: fpn_poly_t, b: fpn_poly_t, k: int) -> int decreases k + 1 { if k < 0 { 0 } else if plt(gcf(a, k), gcf(b, k)) { -1 } else if plt(gcf(b, k), gcf(a, k)) { 1 } else { gndir(a, b, k - 1) } }
pub open spec fn gncmp(a: fpn_poly_t, b: fpn_poly_t) -> int { if a.degree < b.degree { -1 } else if a.degree > b.degree { 1 } else { gndir(a, b, a.degree as int) } }
pub open spec fn gncmpval(op: int, d: int) -> bool { if op == 20 { d < 0 } else if op == 21 { d <= 0 } else if op == 22 { d == 0 } else if op == 23 { d != 0 } else if op == 24 { d >= 0 } else { d > 0 } }
pub proof fn lemma_gnplt(a: P, b: P, p: int) requires pol(a, p), pol(b, p) ensures plt(a, b) || plt(b, a) || a == b
{
    let n = choose|n: int| n >= 0 && dle(a, n); let m = choose|n: int| n >= 0 && dle(b, n); let k = if n > m { n } else { m };
    assert forall|j: int| j > k implies #[trigger] a(j) == b(j) by { assert(b(j) == 0); } lemma_plttot(a, b, k, p);
}
pub proof fn lemma_gndir0(a: fpn_poly_t, b: fpn_poly_t, k: int) requires gnok(a), gnok(b), ghm(b, a), k <= a.degree, a.degree == b.degree ensures gndir(a, b, k) == 0 <==> (forall|j: int| 0 <= j <= k ==> gcf(a, j) == #[trigger] gcf(b, j)) decreases k + 1
{
    if k >= 0 { lemma_gndir0(a, b, k - 1); lemma_plt_excl(gcf(a, k), gcf(b, k)); assert(ge(a.coeffs.v@[k], gm(a))); assert(ge(b.coeffs.v@[k], gm(b))); lemma_fmok(a.coeffs.v@[k]); lemma_fmok(b.coeffs.v@[k]); lemma_gnplt(gcf(a, k), gcf(b, k), gp(a)); let z = gcf(b, k); }
}
pub proof fn lemma_gneq0(a: fpn_poly_t, b: fpn_poly_t) requires gnok(a), gnok(b), ghm(b, a) ensures (gncmp(a, b) == 0) == (a.degree == b.degree && (forall|k: int| gcf(a, k) == #[trigger] gcf(b, k))) { if a.degree == b.degree { lemma_gndir0(a, b, a.degree as int); assert(gncmp(a, b) == 0 ==> forall|k: int| gcf(a, k) == #[trigger] gcf(b, k)); } }
// ---- copies, stores, promotion
pub open spec fn gnlike(x: fpn_poly_t, b: fpn_poly_t) -> bool { gnok(x) && ghm(x, b) && (gnlead(b) ==> gnlead(x)) && (forall|k: int| #[trigger] gcf(x, k) == gcf(b, k)) }
pub proof fn lemma_gncopy(x: fpn_poly_t, b: fpn_poly_t) requires gnst(x), gneq(x, b) ensures gnok(b) ==> gnlike(x, b)
{
    if gnok(b) { assert(gv(x.coeffs.v@[0], b.coeffs.v@[0])); assert(gv(x.coeffs.v@[x.degree as int], b.coeffs.v@[x.degree as int])); assert(ge(b.coeffs.v@[0], gm(b)));
      assert forall|k: int| 0 <= k < x.degree + 1 implies ge(#[trigger] x.coeffs.v@[k], gm(x)) by { assert(gv(x.coeffs.v@[k], b.coeffs.v@[k])); assert(ge(b.coeffs.v@[k], gm(b))); }
      assert forall|k: int| #[trigger] gcf(x, k) == gcf(b, k) by { if 0 <= k <= x.degree { assert(gv(x.coeffs.v@[k], b.coeffs.v@[k])); } } }
}
pub proof fn lemma_gnset(x: fpn_poly_t, o: fpn_poly_t, c: fp_polymod_t, pos: int)
    requires gnok(o), gnst(x), 0 <= pos <= x.degree, ge(c, gm(o)), x.degree == (if pos > o.degree { pos } else { o.degree as int }), gv(x.coeffs.v@[pos], c), forall|k: int| 0 <= k <= x.degree && k != pos ==> (if k <= o.degree { gv(#[trigger] x.coeffs.v@[k], o.coeffs.v@[k]) || x.coeffs.v@[k] == o.coeffs.v@[k] } else { ge(x.coeffs.v@[k], gm(o)) && fmr(x.coeffs.v@[k]) == pz() })
    ensures gnok(x), ghm(x, o), forall|k: int| #[trigger] gcf(x, k) == (if k == pos { fmr(c) } else { gcf(o, k) }), fmr(x.coeffs.v@[pos]) == fmr(c)
{
    let m = gm(o);
    assert forall|k: int| 0 <= k < x.degree + 1 implies ge(#[trigger] x.coeffs.v@[k], m) by { if k != pos && k <= o.degree { assert(ge(o.coeffs.v@[k], m)); } }
    assert(ge(x.coeffs.v@[0], m));
    assert forall|k: int| #[trigger] gcf(x, k) == (if k == pos { fmr(c) } else { gcf(o, k) }) by { if 0 <= k <= x.degree { assert(ge(x.coeffs.v@[k], m)); } }
}
pub proof fn lemma_gnprom(x: fpn_poly_t, o: fpn_poly_t)
    requires gnok(o), o.degree + 1 <= gnmax(), gnst(x), x.degree == o.degree + 1, x.coeffs.v@.len() == o.degree + 2, ge(x.coeffs.v@[0], gm(o)), fmr(x.coeffs.v@[0]) == pz(), forall|k: int| 0 <= k <= o.degree ==> gv(#[trigger] x.coeffs.v@[k + 1], o.coeffs.v@[k])
    ensures gnok(x), ghm(x, o), forall|k: int| #[trigger] gcf(x, k) == gcf(o, k - 1)
{
    assert(ge(o.coeffs.v@[0], gm(o)));
    assert forall|k: int| 0 <= k < x.degree + 1 implies ge(#[trigger] x.coeffs.v@[k], gm(x)) by { if k > 0 { assert(gv(x.coeffs.v@[(k - 1) + 1], o.coeffs.v@[k - 1])); assert(ge(o.coeffs.v@[k - 1], gm(o))); } }
    assert forall|k: int| #[trigger] gcf(x, k) == gcf(o, k - 1) by { if 0 < k <= x.degree { assert(gv(x.coeffs.v@[(k - 1) + 1], o.coeffs.v@[k - 1])); } }
}
// the loop results, as values of all coefficients
pub proof fn lemma_gndone(r: fpn_poly_t, a: fpn_poly_t) requires gnst(r), gnel(r, gm(a), r.degree + 1), fmok(gm(a)) ensures gnok(r), ghm(r, a) { assert(ge(r.coeffs.v@[0], gm(a))); assert forall|k: int| 0 <= k < r.degree + 1 implies ge(#[trigger] r.coeffs.v@[k], gm(r)) by { assert(ge(r.coeffs.v@[k], gm(a))); } }
pub proof fn lemma_gnneg(x: fp_polymod_t) ensures fmok(x) && fmr(x) != pz() ==> pneg(fmr(x), fmp(x)) != pz()
{
    if fmok(x) && pneg(fmr(x), fmp(x)) == pz() { lemma_fmok(x); let p = fmp(x); let a = fmr(x); assert forall|k: int| #[trigger] a(k) == pz()(k) by { assert(0 <= a(k) < p); assert(pneg(a, p)(k) == 0); if a(k) != 0 { lemma_small_mod((p - a(k)) as nat, p as nat); lemma_mod_add_multiples_vanish(-a(k), p); } } lemma_peq(a, pz()); }
}
pub proof fn lemma_gnderivz(p: int) requires p >= 2 ensures forall|k: int| #[trigger] pscale(pz(), k, p) == pz() { assert forall|k: int| #[trigger] pscale(pz(), k, p) == pz() by { assert forall|j: int| #[trigger] pscale(pz(), k, p)(j) == pz()(j) by { assert(0 * k == 0) by(nonlinear_arith); lemma_small_mod(0, p as nat); } lemma_peq(pscale(pz(), k, p), pz()); } }
pub proof fn lemma_gpc0(p: int) requires p >= 2 ensures pc(0) == pz(), pc(0int % p) == pz() { lemma_small_mod(0, p as nat); lemma_pc0(); }
