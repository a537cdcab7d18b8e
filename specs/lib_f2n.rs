// ---- F(2^n)[x]: coefficient sequences over F2[t]/m.  fe: a reduced residue of modulus m; cf: k-th coefficient as a polynomial over F2, zero beyond the degree.
pub open spec fn fnmax() -> int { 0x10000000 }
pub open spec fn fv(a: f2_polymod_t, b: f2_polymod_t) -> bool { a.residue.parts@ == b.residue.parts@ && a.modulus.parts@ == b.modulus.parts@ }
pub open spec fn fe(x: f2_polymod_t, m: P) -> bool { f2mok(x) && f2m(x) == m }
pub open spec fn fnst(x: f2n_poly_t) -> bool { x.coeffs.st is Live && 0 <= x.degree <= fnmax() && x.degree < x.coeffs.v@.len() }
pub open spec fn fnm(x: f2n_poly_t) -> P { f2m(x.coeffs.v@[0]) }
pub open spec fn fnel(x: f2n_poly_t, m: P, n: int) -> bool { forall|k: int| 0 <= k < n ==> fe(#[trigger] x.coeffs.v@[k], m) }
pub open spec fn fnok(x: f2n_poly_t) -> bool { fnst(x) && fnel(x, fnm(x), x.degree + 1) }
pub open spec fn fnlead(x: f2n_poly_t) -> bool { x.degree > 0 ==> f2r(x.coeffs.v@[x.degree as int]) != pz() }
pub open spec fn fcf(x: f2n_poly_t, k: int) -> P { if 0 <= k <= x.degree { f2r(x.coeffs.v@[k]) } else { pz() } }
pub open spec fn fnsame(a: f2n_poly_t, b: f2n_poly_t, n: int) -> bool { forall|k: int| #![trigger a.coeffs.v@[k]] #![trigger b.coeffs.v@[k]] 0 <= k < n ==> fv(a.coeffs.v@[k], b.coeffs.v@[k]) }
pub open spec fn fneq(a: f2n_poly_t, b: f2n_poly_t) -> bool { a.degree == b.degree && fnsame(a, b, b.degree + 1) }
pub open spec fn fnadd(r: f2n_poly_t, a: f2n_poly_t, b: f2n_poly_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> f2mres(#[trigger] r.coeffs.v@[k], fnm(a), padd(fcf(a, k), fcf(b, k), 2)) }
pub open spec fn fnsub(r: f2n_poly_t, a: f2n_poly_t, b: f2n_poly_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> f2mres(#[trigger] r.coeffs.v@[k], fnm(a), psub(fcf(a, k), fcf(b, k), 2)) }
pub open spec fn fnmuls(r: f2n_poly_t, a: f2n_poly_t, s: f2_polymod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> f2mres(#[trigger] r.coeffs.v@[k], fnm(a), pmul(fcf(a, k), f2r(s), 2)) }
pub open spec fn fndivs(r: f2n_poly_t, a: f2n_poly_t, s: f2_polymod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> fe(#[trigger] r.coeffs.v@[k], fnm(a)) && pcong(pmul(f2r(r.coeffs.v@[k]), f2r(s), 2), fcf(a, k), fnm(a), 2) }
pub open spec fn fnfrom(r: f2n_poly_t, a: f2n_poly_t, n: int) -> bool { forall|k: int| n <= k <= a.degree ==> fv(#[trigger] r.coeffs.v@[k], a.coeffs.v@[k]) }
pub proof fn lemma_fnz(x: f2_polymod_t)
    requires f2mok(x),
    ensures f2mres(x, f2m(x), padd(f2r(x), pz(), 2)), f2mres(x, f2m(x), padd(pz(), f2r(x), 2)), f2mres(x, f2m(x), psub(f2r(x), pz(), 2)), psub(pz(), f2r(x), 2) == pneg(f2r(x), 2), pisrem(pz(), f2m(x), pz(), 2), padd(pz(), pz(), 2) == pz(), psub(pz(), pz(), 2) == pz(), pneg(pz(), 2) == pz(),
        psub(f2r(x), f2r(x), 2) == pz(), f2mres(x, f2m(x), f2r(x)),
{
    lemma_f2mok(x); let a = f2r(x);
    lemma_pc01(0);
    assert forall|k: int| #[trigger] padd(a, pz(), 2)(k) == a(k) by { assert(0 <= a(k) < 2); } lemma_peq(padd(a, pz(), 2), a);
    assert forall|k: int| #[trigger] padd(pz(), a, 2)(k) == a(k) by { assert(0 <= a(k) < 2); } lemma_peq(padd(pz(), a, 2), a);
    assert forall|k: int| #[trigger] psub(a, pz(), 2)(k) == a(k) by { assert(0 <= a(k) < 2); } lemma_peq(psub(a, pz(), 2), a);
    assert forall|k: int| #[trigger] psub(pz(), a, 2)(k) == pneg(a, 2)(k) by { } lemma_peq(psub(pz(), a, 2), pneg(a, 2));
    assert forall|k: int| #[trigger] padd(pz(), pz(), 2)(k) == pz()(k) by { } lemma_peq(padd(pz(), pz(), 2), pz());
    assert forall|k: int| #[trigger] psub(pz(), pz(), 2)(k) == pz()(k) by { } lemma_peq(psub(pz(), pz(), 2), pz());
    assert forall|k: int| #[trigger] psub(a, a, 2)(k) == pz()(k) by { } lemma_peq(psub(a, a, 2), pz());
    assert forall|k: int| #[trigger] pneg(pz(), 2)(k) == pz()(k) by { } lemma_peq(pneg(pz(), 2), pz());
    lemma_pcong_refl(a, f2m(x), 2); lemma_pcong_refl(pz(), f2m(x), 2); lemma_prem_pz(f2m(x));
}
pub proof fn lemma_fnzero(x: f2_polymod_t, a: f2_polymod_t) requires f2mok(a), f2mres(x, f2m(a), psub(f2r(a), f2r(a), 2)) ensures f2r(x) == pz(), fe(x, f2m(a)) { lemma_f2mok(a); lemma_f2mok(x); lemma_fnz(a); lemma_f2zero_res(f2m(a), f2deg(a.modulus.parts@), f2r(x)); }
pub open spec fn fnq(x: f2n_poly_t) -> PQ { |k: int| fcf(x, k) }
pub open spec fn fnpart(r: f2n_poly_t, a: f2n_poly_t, b: f2n_poly_t, i: int, j: int) -> bool { forall|k: int| 0 <= k <= r.degree ==> f2mres(#[trigger] r.coeffs.v@[k], fnm(a), mpart(fnq(a), fnq(b), k, i, j, 2)) }
pub proof fn lemma_fnrow(r: f2n_poly_t, a: f2n_poly_t, b: f2n_poly_t, i: int)
    requires fnpart(r, a, b, i, b.degree + 1), 0 <= i ensures fnpart(r, a, b, i + 1, 0)
{
    assert forall|k: int| 0 <= k <= r.degree implies f2mres(#[trigger] r.coeffs.v@[k], fnm(a), mpart(fnq(a), fnq(b), k, i + 1, 0, 2)) by { if !(0 <= k - i < b.degree + 1) { assert(fnq(b)(k - i) == pz()); lemma_msum_skip(fnq(a), fnq(b), k, i, 2); } }
}
pub proof fn lemma_fncell(x: f2_polymod_t, y: f2_polymod_t, u: f2_polymod_t, w: f2_polymod_t, z: f2_polymod_t, a: PQ, b: PQ, k: int, i: int, m: P)
    requires i >= 0, f2mres(x, m, msum(a, b, k, i, 2)), f2mok(y), f2mok(u), f2m(y) == m, f2m(u) == m, f2r(y) == a(i), f2r(u) == b(k - i), f2mres(w, m, pmul(f2r(y), f2r(u), 2)), f2mres(z, m, padd(f2r(x), f2r(w), 2))
    ensures f2mres(z, m, msum(a, b, k, i + 1, 2))
{
    lemma_f2mok(x); lemma_f2mok(w); lemma_f2mok(z); lemma_msum_can(a, b, k, i, 2); lemma_pmul_can(f2r(y), f2r(u), 2);
    lemma_mstep(msum(a, b, k, i, 2), f2r(x), pmul(a(i), b(k - i), 2), f2r(w), f2r(z), m, 2);
}
// Horner
pub proof fn lemma_fncan(x: f2n_poly_t) requires fnok(x) ensures forall|j: int| can(#[trigger] fnq(x)(j), 2) { lemma_pc01(0); assert forall|j: int| can(#[trigger] fnq(x)(j), 2) by { if 0 <= j <= x.degree { assert(fe(x.coeffs.v@[j], fnm(x))); lemma_f2mok(x.coeffs.v@[j]); } } }
pub proof fn lemma_fnhor(r: f2_polymod_t, s: f2_polymod_t, t: f2_polymod_t, x: f2n_poly_t, c: f2_polymod_t, k: int)
    requires fnok(x), fe(c, fnm(x)), 0 <= k < x.degree, f2mres(r, fnm(x), mhor(fnq(x), f2r(c), k + 1, x.degree as int, 2)), f2mres(s, fnm(x), pmul(f2r(r), f2r(c), 2)), f2mres(t, fnm(x), padd(f2r(s), fcf(x, k), 2))
    ensures f2mres(t, fnm(x), mhor(fnq(x), f2r(c), k, x.degree as int, 2))
{
    let m = fnm(x); let d = x.degree as int; let h = mhor(fnq(x), f2r(c), k + 1, d, 2); let e = x.coeffs.v@[k];
    assert(fe(e, m)); lemma_f2mok(r); lemma_f2mok(s); lemma_f2mok(t); lemma_f2mok(c); lemma_f2mok(e); lemma_fncan(x); lemma_mhor_can(fnq(x), f2r(c), k + 1, d, 2);
    lemma_pcong_mulr(h, f2r(r), f2r(c), m, 2); lemma_pmul_can(h, f2r(c), 2); lemma_pmul_can(f2r(r), f2r(c), 2);
    lemma_pcong_trans(pmul(h, f2r(c), 2), pmul(f2r(r), f2r(c), 2), f2r(s), m, 2);
    lemma_pcong_addr(pmul(h, f2r(c), 2), f2r(s), fcf(x, k), m, 2); lemma_padd_can(f2r(s), fcf(x, k), 2);
    lemma_pcong_trans(padd(pmul(h, f2r(c), 2), fcf(x, k), 2), padd(f2r(s), fcf(x, k), 2), f2r(t), m, 2);
    assert(fnq(x)(k) == fcf(x, k));
}
pub open spec fn fndir(a: f2n_poly_t, b: f2n_poly_t, k: int) -> int decreases k + 1 { if k < 0 { 0 } else if plt(fcf(a, k), fcf(b, k)) { -1 } else if plt(fcf(b, k), fcf(a, k)) { 1 } else { fndir(a, b, k - 1) } }
pub open spec fn fncmp(a: f2n_poly_t, b: f2n_poly_t) -> int { if a.degree < b.degree { -1 } else if a.degree > b.degree { 1 } else { fndir(a, b, a.degree as int) } }
pub open spec fn fncmpval(op: int, d: int) -> bool { if op == 20 { d < 0 } else if op == 21 { d <= 0 } else if op == 22 { d == 0 } else if op == 23 { d != 0 } else if op == 24 { d >= 0 } else { d > 0 } }
pub open spec fn fnlike(x: f2n_poly_t, b: f2n_poly_t) -> bool { fnok(x) && fnm(x) == fnm(b) && (fnlead(b) ==> fnlead(x)) && (forall|k: int| #[trigger] fcf(x, k) == fcf(b, k)) }
pub proof fn lemma_fncopy(x: f2n_poly_t, b: f2n_poly_t) requires fnst(x), fneq(x, b) ensures fnok(b) ==> fnlike(x, b)
{
    if fnok(b) { assert(fv(x.coeffs.v@[0], b.coeffs.v@[0])); assert(fv(x.coeffs.v@[x.degree as int], b.coeffs.v@[x.degree as int]));
      assert forall|k: int| 0 <= k < x.degree + 1 implies fe(#[trigger] x.coeffs.v@[k], fnm(x)) by { assert(fv(x.coeffs.v@[k], b.coeffs.v@[k])); assert(fe(b.coeffs.v@[k], fnm(b))); }
      assert forall|k: int| #[trigger] fcf(x, k) == fcf(b, k) by { if 0 <= k <= x.degree { assert(fv(x.coeffs.v@[k], b.coeffs.v@[k])); } } }
}
// coefficient pos replaced by c; positions between the old degree and pos filled with zeros
pub proof fn lemma_fnset(x: f2n_poly_t, o: f2n_poly_t, c: f2_polymod_t, pos: int)
    requires fnok(o), fnst(x), 0 <= pos <= x.degree, fe(c, fnm(o)), x.degree == (if pos > o.degree { pos } else { o.degree as int }), fv(x.coeffs.v@[pos], c), forall|k: int| 0 <= k <= x.degree && k != pos ==> (if k <= o.degree { fv(#[trigger] x.coeffs.v@[k], o.coeffs.v@[k]) } else { fe(x.coeffs.v@[k], fnm(o)) && f2r(x.coeffs.v@[k]) == pz() })
    ensures fnok(x), fnm(x) == fnm(o), forall|k: int| #[trigger] fcf(x, k) == (if k == pos { f2r(c) } else { fcf(o, k) }), f2r(x.coeffs.v@[pos]) == f2r(c)
{
    let m = fnm(o);
    assert forall|k: int| 0 <= k < x.degree + 1 implies fe(#[trigger] x.coeffs.v@[k], m) by { if k != pos && k <= o.degree { assert(fe(o.coeffs.v@[k], m)); } }
    assert(fe(x.coeffs.v@[0], m));
    assert forall|k: int| #[trigger] fcf(x, k) == (if k == pos { f2r(c) } else { fcf(o, k) }) by { if 0 <= k <= x.degree { assert(fe(x.coeffs.v@[k], m)); } }
}
pub proof fn lemma_fn0(z: f2_polymod_t, a: f2_polymod_t) requires f2mok(a), f2mok(z), f2m(z) == f2m(a), pisrem(pz(), f2m(a), f2r(z), 2) ensures f2r(z) == pz(), fe(z, f2m(a)) { lemma_f2mok(a); lemma_f2mok(z); lemma_f2zero_res(f2m(a), f2deg(a.modulus.parts@), f2r(z)); }
pub proof fn lemma_fnderiv(x: f2_polymod_t, z: f2_polymod_t, i: int)
    requires f2mok(x), f2mok(z), f2m(z) == f2m(x), exists|u: f2_polymod_t| #[trigger] f2mok(u) && pisrem(pc(i % 2), f2m(x), f2r(u), 2) && pisrem(pmul(f2r(x), f2r(u), 2), f2m(x), f2r(z), 2)
    ensures fe(z, f2m(x)), f2r(z) == (if i % 2 == 1 { f2r(x) } else { pz() })
{
    let u = choose|u: f2_polymod_t| #[trigger] f2mok(u) && pisrem(pc(i % 2), f2m(x), f2r(u), 2) && pisrem(pmul(f2r(x), f2r(u), 2), f2m(x), f2r(z), 2);
    let m = f2m(x); let d = f2deg(x.modulus.parts@);
    lemma_f2mok(x); lemma_f2mok(z); lemma_f2mok(u); lemma_pc01(i); lemma_prem_one(m, d); lemma_prem_pz(m); lemma_f2msame(pc(i % 2), m, f2r(u), d); lemma_pmul_one(f2r(x), 2); lemma_pmul_zero(f2r(x), 2);
    if i % 2 == 1 { lemma_f2msame(f2r(x), m, f2r(z), d); } else { lemma_f2msame(pz(), m, f2r(z), d); }
}
pub proof fn lemma_fnprom(x: f2n_poly_t, o: f2n_poly_t)
    requires fnok(o), o.degree + 1 <= fnmax(), x.coeffs.st is Live, x.degree == o.degree + 1, x.coeffs.v@.len() == o.degree + 2, f2mres(x.coeffs.v@[0], fnm(o), psub(f2r(o.coeffs.v@[0]), f2r(o.coeffs.v@[0]), 2)), forall|k: int| 0 <= k <= o.degree ==> fv(#[trigger] x.coeffs.v@[k + 1], o.coeffs.v@[k])
    ensures fnok(x), fnm(x) == fnm(o), forall|k: int| #[trigger] fcf(x, k) == fcf(o, k - 1)
{
    assert(fe(o.coeffs.v@[0], fnm(o))); lemma_fnzero(x.coeffs.v@[0], o.coeffs.v@[0]);
    assert forall|k: int| 0 <= k < x.degree + 1 implies fe(#[trigger] x.coeffs.v@[k], fnm(x)) by { if k > 0 { assert(fv(x.coeffs.v@[(k - 1) + 1], o.coeffs.v@[k - 1])); assert(fe(o.coeffs.v@[k - 1], fnm(o))); } }
    assert forall|k: int| #[trigger] fcf(x, k) == fcf(o, k - 1) by { if 0 < k <= x.degree { assert(fv(x.coeffs.v@[(k - 1) + 1], o.coeffs.v@[k - 1])); } }
}
pub proof fn lemma_fndir0(a: f2n_poly_t, b: f2n_poly_t, k: int) requires fnok(a), fnok(b), k <= a.degree, a.degree == b.degree ensures fndir(a, b, k) == 0 <==> (forall|j: int| 0 <= j <= k ==> fcf(a, j) == #[trigger] fcf(b, j)) decreases k + 1
{
    if k >= 0 { lemma_fndir0(a, b, k - 1); lemma_plt_excl(fcf(a, k), fcf(b, k)); assert(fe(a.coeffs.v@[k], fnm(a))); assert(fe(b.coeffs.v@[k], fnm(b))); lemma_f2mok(a.coeffs.v@[k]); lemma_f2mok(b.coeffs.v@[k]); lemma_fnplt(fcf(a, k), fcf(b, k)); let z = fcf(b, k); }
}
pub proof fn lemma_fneq0(a: f2n_poly_t, b: f2n_poly_t) requires fnok(a), fnok(b) ensures (fncmp(a, b) == 0) == (a.degree == b.degree && (forall|k: int| fcf(a, k) == #[trigger] fcf(b, k))) { if a.degree == b.degree { lemma_fndir0(a, b, a.degree as int); assert(fncmp(a, b) == 0 ==> forall|k: int| fcf(a, k) == #[trigger] fcf(b, k)); } }
pub proof fn lemma_fnplt(a: P, b: P) requires pol(a, 2), pol(b, 2) ensures plt(a, b) || plt(b, a) || a == b
{
    let n = choose|n: int| n >= 0 && dle(a, n); let m = choose|n: int| n >= 0 && dle(b, n); let k = if n > m { n } else { m };
    assert forall|j: int| j > k implies #[trigger] a(j) == b(j) by { assert(b(j) == 0); } lemma_plttot(a, b, k, 2);
}
