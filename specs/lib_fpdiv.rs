// ---- division and gcd over Z/p
pub open spec fn pdivs(a: P, b: P, q: P, r: P, p: int) -> bool { a == padd(pmul(q, b, p), r, p) && prem(r, b) }
pub open spec fn pisquot(a: P, b: P, q: P, p: int) -> bool { exists|r: P| #[trigger] pdivs(a, b, q, r, p) && pol(r, p) }
pub open spec fn pisrm(a: P, b: P, r: P, p: int) -> bool { exists|q: P| #[trigger] pdivs(a, b, q, r, p) && pol(q, p) }
pub proof fn lemma_pzp(p: int) requires p >= 2 ensures forall|n: int| #[trigger] dle(pz(), n), can(pz(), p), pol(pz(), p), pz() == pc(0), pc(1) != pz(), can(pc(1), p), pol(pc(1), p), dle(pc(1), 0), pc(0int % p) == pz(), pc(1int % p) == pc(1), isdeg(pz(), 0)
{ lemma_pol_const(0, p); lemma_pol_const(1, p); assert forall|k: int| #[trigger] pc(0)(k) == pz()(k) by {} lemma_peq(pc(0), pz()); assert(pc(1)(0) != pz()(0)); lemma_small_mod(0, p as nat); lemma_small_mod(1, p as nat); }
pub proof fn lemma_dlepz(a: P, n: int, p: int) requires can(a, p), dle(a, n), n < 0 ensures a == pz() { assert forall|k: int| #[trigger] a(k) == pz()(k) by {} lemma_peq(a, pz()); }
pub proof fn lemma_fplead(x: fp_poly_t) requires fpok(x) ensures isdeg(fpp(x), x.degree as int), can(fpp(x), fpm(x)), pol(fpp(x), fpm(x)), dle(fpp(x), x.degree as int), elok(x.coeffs.v@[x.degree as int], fpm(x)), fpp(x)(x.degree as int) == x.coeffs.v@[x.degree as int].residue, fpp(x) != pz() ==> 0 < fpp(x)(x.degree as int) < fpm(x), fpp(x) == pz() ==> x.degree == 0 && x.coeffs.v@[0].residue == 0
{
    lemma_fp(x);
    if fpp(x)(x.degree as int) == 0 { assert(x.degree == 0); lemma_fpzero(x); assert forall|k: int| #[trigger] fpp(x)(k) == pz()(k) by {} lemma_peq(fpp(x), pz()); }
    if fpp(x) == pz() { assert(pz()(x.degree as int) == 0); }
}
pub proof fn lemma_pdv_trivial(a: P, b: P, d: int, e: int, p: int)
    requires p >= 2, can(a, p), pol(a, p), can(b, p), isdeg(a, d), isdeg(b, e), a == pz() || d < e
    ensures pdivs(a, b, pz(), a, p), qdeg(pz(), a, b), pisquot(a, b, pz(), p), pisrm(a, b, a, p)
{
    lemma_pmul_zero(b, p); lemma_padd_laws(a, a, a, p); lemma_pzp(p);
    assert forall|x: int| #[trigger] isdeg(b, x) implies dle(a, x - 1) by { lemma_isdeg_uniq(b, x, e); if a == pz() {} }
    assert(pdivs(a, b, pz(), a, p));
}
pub proof fn lemma_pdv_end(a: P, b: P, q: P, r: P, d: int, e: int, p: int)
    requires isdeg(a, d), isdeg(b, e), dle(q, d - e), dle(r, e - 1), a == padd(pmul(q, b, p), r, p)
    ensures pdivs(a, b, q, r, p), qdeg(q, a, b)
{
    assert forall|x: int| #[trigger] isdeg(b, x) implies dle(r, x - 1) by { lemma_isdeg_uniq(b, x, e); }
    assert forall|x: int, y: int| #[trigger] isdeg(a, x) && #[trigger] isdeg(b, y) implies dle(q, x - y) by { lemma_isdeg_uniq(a, x, d); lemma_isdeg_uniq(b, y, e); }
}
// quotient so far, from the array of its coefficients above s
pub open spec fn fpqs(v: Seq<intmod_t>, s: int, n: int) -> P { |k: int| if s < k <= n { v[k].residue as int } else { 0int } }
pub proof fn lemma_fpqs_step(v: Seq<intmod_t>, w: Seq<intmod_t>, s: int, n: int, c: int, p: int)
    requires p >= 2, 0 <= s <= n, elis(w[s], p, c), 0 <= c < p, forall|k: int| s < k <= n ==> #[trigger] w[k] == v[k], can(fpqs(v, s, n), p)
    ensures fpqs(w, s - 1, n) == padd(fpqs(v, s, n), pmono(c, s), p), can(fpqs(w, s - 1, n), p), can(pmono(c, s), p)
{
    assert forall|k: int| #[trigger] fpqs(w, s - 1, n)(k) == padd(fpqs(v, s, n), pmono(c, s), p)(k) by { let x = fpqs(v, s, n)(k); assert(0 <= x < p); lemma_small_mod(x as nat, p as nat); lemma_small_mod(c as nat, p as nat); lemma_small_mod(0, p as nat); }
    lemma_peq(fpqs(w, s - 1, n), padd(fpqs(v, s, n), pmono(c, s), p)); lemma_padd_can(fpqs(v, s, n), pmono(c, s), p);
}
pub proof fn lemma_cinv(c0: int, l: int, i: int, p: int) requires p >= 2, 0 <= c0 < p, is_inv(l, i, p) ensures (((c0 * i) % p) * l) % p == c0, c0 != 0 ==> (c0 * i) % p != 0
{
    lemma_mulmod(c0 * i, l, p); assert(c0 * i * l == c0 * (l * i)) by(nonlinear_arith); lemma_mulmod(c0, l * i, p); assert(c0 * 1 == c0); lemma_small_mod(c0 as nat, p as nat);
    if (c0 * i) % p == 0 { assert(0 * l == 0) by(nonlinear_arith); lemma_small_mod(0, p as nat); }
}
// one subtraction of long division: R1 = R0 - c x^s b
pub proof fn lemma_pdv_step(a: P, b: P, q0: P, q1: P, r0: P, r1: P, d: P, c: int, s: int, e: int, p: int)
    requires p >= 2, can(a, p), can(b, p), can(q0, p), can(r0, p), isdeg(b, e), 0 <= c < p, s >= 0, d == pscale(b, c, p), a == padd(pmul(q0, b, p), r0, p), dle(r0, s + e), (c * b(e)) % p == r0(s + e), q1 == padd(q0, pmono(c, s), p), can(pmono(c, s), p), forall|k: int| #[trigger] r1(k) == (r0(k) - d(k - s)) % p
    ensures a == padd(pmul(q1, b, p), r1, p), dle(r1, s + e - 1), can(r1, p)
{
    let sh = pmul(pmono(c, s), b, p);
    lemma_pmul_mono(c, s, b, p); lemma_pmul_can(pmono(c, s), b, p); lemma_pmul_can(q0, b, p); lemma_pmul_dist(b, q0, pmono(c, s), p);
    assert forall|k: int| #[trigger] r1(k) == psub(r0, sh, p)(k) by { assert(sh(k) == (c * b(k - s)) % p); assert(d(k - s) == (c * b(k - s)) % p); }
    lemma_peq(r1, psub(r0, sh, p)); lemma_padd_can(r0, sh, p);
    let x = pmul(q0, b, p);
    assert forall|k: int| #[trigger] padd(padd(x, sh, p), r1, p)(k) == a(k) by {
        assert(a(k) == padd(x, r0, p)(k));
        vstd::arithmetic::div_mod::lemma_add_mod_noop(x(k) + sh(k), r0(k) - sh(k), p);
        assert(x(k) + sh(k) + (r0(k) - sh(k)) == x(k) + r0(k));
    }
    lemma_peq(padd(padd(x, sh, p), r1, p), a);
    lemma_small_mod(0, p as nat); assert(c * 0 == 0);
    assert forall|k: int| k > s + e - 1 implies #[trigger] r1(k) == 0 by { assert(sh(k) == (c * b(k - s)) % p); if k > s + e { assert(b(k - s) == 0); } else { assert(k - s == e); } }
}
pub proof fn lemma_fprem_deg(r: fp_poly_t, d: fp_poly_t) requires fpok(r), fpok(d), fpm(r) == fpm(d), prem(fpp(r), fpp(d)) ensures fpp(r) != pz() ==> r.degree < d.degree
{ lemma_fplead(r); lemma_fplead(d); assert(dle(fpp(r), d.degree - 1)); if d.degree == 0 { lemma_dlepz(fpp(r), -1, fpm(r)); } if r.degree >= d.degree && fpp(r) != pz() { assert(fpp(r)(r.degree as int) == 0); } }
pub open spec fn fpbound(m: P, mm: P, c: fp_poly_t, d: fp_poly_t, bb: int) -> bool { dle(m, bb - c.degree) && dle(mm, bb - d.degree) }
pub proof fn lemma_fpbz_step(m: fp_poly_t, mm: fp_poly_t, q: fp_poly_t, c: fp_poly_t, d: fp_poly_t, r: fp_poly_t, bb: int, p: int)
    requires fpok(m), fpok(mm), fpok(q), fpok(c), fpok(d), fpok(r), fpm(m) == p, fpm(mm) == p, fpm(q) == p, fpm(c) == p, fpm(d) == p, fpm(r) == p, fpbound(fpp(m), fpp(mm), c, d, bb), qdeg(fpp(q), fpp(c), fpp(d)), fpp(r) != pz(), pdivs(fpp(c), fpp(d), fpp(q), fpp(r), p), 0 <= bb, bb + c.degree < fpmax() - 2
    ensures q.degree + m.degree < fpmax() - 2, fpbound(psub(fpp(mm), pmul(fpp(q), fpp(m), p), p), fpp(m), d, r, bb), r.degree <= c.degree
{
    let dc = c.degree as int; let dd = d.degree as int; let dr = r.degree as int;
    lemma_fplead(c); lemma_fplead(d); lemma_fplead(r); lemma_fplead(q); lemma_fplead(m); lemma_fplead(mm); lemma_fprem_deg(r, d); lemma_pzp(p);
    assert(dle(fpp(q), dc - dd));
    lemma_small_mod(0, p as nat);
    if dc < dd {
        lemma_dlepz(fpp(q), dc - dd, p); lemma_pmul_zero(fpp(d), p); lemma_pmul_zero(fpp(m), p); lemma_padd_laws(fpp(r), fpp(r), fpp(r), p);
        assert(fpp(c) == fpp(r)); lemma_isdeg_uniq(fpp(c), dc, dr);
        lemma_padd_laws(fpp(mm), fpp(mm), fpp(mm), p);
        assert(q.degree == 0);
    } else {
        if q.degree > dc - dd { assert(fpp(q)(q.degree as int) == 0); }
        assert(q.degree <= dc - dd);
        if bb - dc < 0 { lemma_dlepz(fpp(m), bb - dc, p); lemma_pmul_zero(fpp(q), p); lemma_padd_laws(fpp(mm), fpp(mm), fpp(mm), p); }
        else {
            lemma_pmul_dle(fpp(q), fpp(m), dc - dd, bb - dc, p);
            assert forall|k: int| k > bb - dd implies #[trigger] psub(fpp(mm), pmul(fpp(q), fpp(m), p), p)(k) == 0 by {}
        }
    }
    if bb - dc >= 0 { if m.degree > bb - dc { assert(fpp(m)(m.degree as int) == 0); } } else { lemma_dlepz(fpp(m), bb - dc, p); }
    assert forall|k: int| k > bb - dr implies #[trigger] fpp(m)(k) == 0 by { }
}
pub proof fn lemma_fpbz_begin(a: P, b: P, p: int) requires p >= 2, can(a, p), can(b, p) ensures pcomb(a, a, b, pc(1), pz(), p), pcomb(b, a, b, pz(), pc(1), p), gtrans(a, b, a, b, p)
{ lemma_pmul_zero(a, p); lemma_pmul_zero(b, p); lemma_pmul_one(a, p); lemma_pmul_one(b, p); lemma_padd_laws(a, a, a, p); lemma_padd_laws(b, b, b, p); }
pub proof fn lemma_fpdeg_le(x: fp_poly_t, n: int) requires fpok(x), dle(fpp(x), n), n >= 0 ensures x.degree <= n { lemma_fplead(x); if x.degree > n { assert(fpp(x)(x.degree as int) == 0); } }
pub proof fn lemma_pdv_after(x: fp_poly_t, r0: P, d: P, s: int, stop: int, p: int)
    requires p >= 2, can(r0, p), dle(r0, x.degree as int), can(d, p), fpst(x), x.degree < fpmax(), s >= 0, stop <= x.degree, dle(d, stop - s), forall|k: int| 0 <= k <= x.degree ==> elis(#[trigger] x.coeffs.v@[k], p, if s <= k <= stop { (r0(k) - d(k - s)) % p } else { r0(k) })
    ensures fpw(x), fpm(x) == p, forall|k: int| #[trigger] fpp(x)(k) == (r0(k) - d(k - s)) % p, can(fpp(x), p)
{
    let n = |k: int| (r0(k) - d(k - s)) % p;
    lemma_small_mod(0, p as nat);
    assert forall|k: int| 0 <= #[trigger] n(k) < p by { lemma_mod_bound(r0(k) - d(k - s), p); }
    assert forall|k: int| 0 <= k <= x.degree implies elis(#[trigger] x.coeffs.v@[k], p, n(k)) by { assert(elis(x.coeffs.v@[k], p, if s <= k <= stop { (r0(k) - d(k - s)) % p } else { r0(k) })); if k < s || k > stop { assert(d(k - s) == 0); lemma_small_mod(r0(k) as nat, p as nat); } }
    assert forall|k: int| k > x.degree implies #[trigger] n(k) == 0 by { assert(d(k - s) == 0); }
    assert forall|k: int| k < 0 implies #[trigger] n(k) == 0 by { assert(d(k - s) == 0); assert(r0(k) == 0); }
    lemma_fpmk(x, p, n);
}
pub proof fn lemma_fpqs_end(x: fp_poly_t, p: int) requires fpst(x), x.degree < fpmax(), p >= 2, x.coeffs.v@[x.degree as int].residue != 0, forall|k: int| 0 <= k <= x.degree ==> elok(#[trigger] x.coeffs.v@[k], p) ensures fpis(x, p, fpqs(x.coeffs.v@, -1, x.degree as int)), dle(fpp(x), x.degree as int)
{ assert(elok(x.coeffs.v@[0], p)); lemma_peq(fpp(x), fpqs(x.coeffs.v@, -1, x.degree as int)); lemma_fp(x); }
pub proof fn lemma_fpqs_0(v: Seq<intmod_t>, n: int) ensures fpqs(v, n, n) == pz() { lemma_peq(fpqs(v, n, n), pz()); }

// state of long division when shifts above s are done: quotient coefficients above s are final, rem is the running remainder
#[verifier::opaque]
pub open spec fn qrst(a: P, b: P, quot: fp_poly_t, rem: fp_poly_t, s: int, n: int, e: int, p: int) -> bool {
    can(fpqs(quot.coeffs.v@, s, n), p) && a == padd(pmul(fpqs(quot.coeffs.v@, s, n), b, p), fpp(rem), p) && dle(fpp(rem), s + e) && (s == n ==> fpp(rem) == a) && (s < n ==> quot.coeffs.v@[n].residue != 0) && (forall|k: int| s < k <= n ==> elok(#[trigger] quot.coeffs.v@[k], p))
}
pub proof fn lemma_qr_begin(a: P, b: P, quot: fp_poly_t, rem: fp_poly_t, n: int, e: int, p: int) requires p >= 2, can(a, p), can(b, p), isdeg(a, n + e), isdeg(b, e), fpp(rem) == a ensures qrst(a, b, quot, rem, n, n, e, p)
{ reveal(qrst); lemma_fpqs_0(quot.coeffs.v@, n); lemma_pmul_zero(b, p); lemma_padd_laws(a, a, a, p); lemma_pzp(p); }
// the multiplier chosen for shift s
pub proof fn lemma_qr_top(a: P, b: P, quot: fp_poly_t, rem: fp_poly_t, i: int, s: int, n: int, e: int, p: int)
    requires qrst(a, b, quot, rem, s, n, e, p), fpw(rem), fpm(rem) == p, p >= 2, 0 <= s + e <= rem.degree, is_inv(b(e), i, p)
    ensures can(fpp(rem), p), pol(fpp(rem), p), dle(fpp(rem), rem.degree as int), forall|k: int| 0 <= k <= rem.degree ==> elis(#[trigger] rem.coeffs.v@[k], p, fpp(rem)(k)), elis(rem.coeffs.v@[s + e], p, fpp(rem)(s + e)), (((fpp(rem)(s + e) * i) % p) * b(e)) % p == fpp(rem)(s + e), s == n && a(s + e) != 0 ==> (fpp(rem)(s + e) * i) % p != 0, 0 <= (fpp(rem)(s + e) * i) % p < p
{ reveal(qrst); lemma_fp(rem); let r0 = fpp(rem); lemma_cinv(r0(s + e), b(e), i, p); lemma_mod_bound(r0(s + e) * i, p); assert(elok(rem.coeffs.v@[s + e], p)); }
pub proof fn lemma_qr_step(a: P, b: P, q0: fp_poly_t, q1: fp_poly_t, r0: fp_poly_t, r1: fp_poly_t, m: fp_poly_t, c: int, i: int, s: int, n: int, e: int, stop: int, p: int)
    requires p >= 2, can(a, p), can(b, p), isdeg(b, e), a(n + e) != 0, is_inv(b(e), i, p), c == (fpp(r0)(s + e) * i) % p, qrst(a, b, q0, r0, s, n, e, p), fpw(r0), fpm(r0) == p, 0 <= s <= n, e >= 0, r0.degree == n + e, r1.degree == r0.degree, fpst(r1), r1.degree < fpmax(), elis(q1.coeffs.v@[s], p, c), forall|k: int| s < k <= n ==> #[trigger] q1.coeffs.v@[k] == q0.coeffs.v@[k],
        fpok(m), fpm(m) == p, fpp(m) == pscale(b, c, p), stop == s + m.degree, stop <= r1.degree, forall|k: int| 0 <= k <= r1.degree ==> elis(#[trigger] r1.coeffs.v@[k], p, if s <= k <= stop { (fpp(r0)(k) - fpp(m)(k - s)) % p } else { fpp(r0)(k) })
    ensures fpw(r1), fpm(r1) == p, qrst(a, b, q1, r1, s - 1, n, e, p)
{
    lemma_qr_top(a, b, q0, r0, i, s, n, e, p);
    reveal(qrst);
    lemma_fp(m); lemma_fp(r0);
    lemma_pdv_after(r1, fpp(r0), fpp(m), s, stop, p);
    lemma_fpqs_step(q0.coeffs.v@, q1.coeffs.v@, s, n, c, p);
    lemma_pdv_step(a, b, fpqs(q0.coeffs.v@, s, n), fpqs(q1.coeffs.v@, s - 1, n), fpp(r0), fpp(r1), fpp(m), c, s, e, p);
    assert forall|k: int| s - 1 < k <= n implies elok(#[trigger] q1.coeffs.v@[k], p) by { if k == s { } else { assert(q1.coeffs.v@[k] == q0.coeffs.v@[k]); } }
}
pub proof fn lemma_qr_end(a: P, b: P, quot: fp_poly_t, rem: fp_poly_t, n: int, e: int, p: int)
    requires qrst(a, b, quot, rem, -1, n, e, p), fpst(quot), quot.degree == n, 0 <= n < fpmax(), p >= 2, isdeg(a, n + e), isdeg(b, e), fpw(rem), fpm(rem) == p
    ensures fpok(quot), fpm(quot) == p, pdivs(a, b, fpp(quot), fpp(rem), p), qdeg(fpp(quot), a, b), elok(quot.coeffs.v@[n], p), quot.coeffs.v@[n].residue != 0, pol(fpp(quot), p), pol(fpp(rem), p)
{ reveal(qrst); lemma_fpqs_end(quot, p); lemma_fp(quot); lemma_fp(rem); lemma_pdv_end(a, b, fpp(quot), fpp(rem), n + e, e, p); lemma_padd_can(fpp(rem), fpp(rem), p); }
