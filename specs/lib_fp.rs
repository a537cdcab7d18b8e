// ---- polynomials over Z/p stored as arrays of intmod_t, least significant coefficient first
pub open spec fn fpmax() -> int { 0x2000_0000 }
pub open spec fn elis(e: intmod_t, p: int, v: int) -> bool { e.modulus as int == p && e.residue as int == v }
pub open spec fn elok(e: intmod_t, p: int) -> bool { e.modulus as int == p && 0 <= e.residue as int && (e.residue as int) < p }
pub open spec fn fps(s: Seq<intmod_t>, d: int) -> P { |k: int| if 0 <= k <= d { s[k].residue as int } else { 0int } }
pub open spec fn fpp(x: fp_poly_t) -> P { fps(x.coeffs.v@, x.degree as int) }
pub open spec fn fpm(x: fp_poly_t) -> int { x.coeffs.v@[0].modulus as int }
// live storage
pub open spec fn fpst(x: fp_poly_t) -> bool { x.coeffs.st is Live && 0 <= x.degree && x.degree < x.coeffs.v@.len() && x.degree < 2 * fpmax() }
// a default-constructed object
pub open spec fn fpdef(x: fp_poly_t) -> bool { fpst(x) && x.degree == 0 && elok(x.coeffs.v@[0], 1) }
// coefficients of one modulus >= 2
pub open spec fn fpw(x: fp_poly_t) -> bool { fpst(x) && x.degree < fpmax() && fpm(x) >= 2 && (forall|k: int| 0 <= k <= x.degree ==> #[trigger] elok(x.coeffs.v@[k], fpm(x))) }
// ... with a nonzero leading coefficient unless constant
pub open spec fn fpok(x: fp_poly_t) -> bool { fpw(x) && (x.degree == 0 || x.coeffs.v@[x.degree as int].residue != 0) }
pub open spec fn fpis(x: fp_poly_t, p: int, a: P) -> bool { fpok(x) && fpm(x) == p && fpp(x) == a }
pub open spec fn pcs(c2: int, c1: int, c0: int) -> P { |k: int| if k == 0 { c0 } else if k == 1 { c1 } else if k == 2 { c2 } else { 0int } }
pub open spec fn fld(p: int) -> bool { forall|r: int| 0 < r < p ==> #[trigger] coprime(p, r) }
pub proof fn lemma_fp(x: fp_poly_t) requires fpw(x)
    ensures can(fpp(x), fpm(x)), pol(fpp(x), fpm(x)), dle(fpp(x), x.degree as int), fpok(x) ==> isdeg(fpp(x), x.degree as int), forall|k: int| 0 <= k <= x.degree ==> elok(#[trigger] x.coeffs.v@[k], fpm(x)) && fpp(x)(k) == x.coeffs.v@[k].residue as int
{
    assert forall|k: int| 0 <= k <= x.degree implies elok(#[trigger] x.coeffs.v@[k], fpm(x)) && fpp(x)(k) == x.coeffs.v@[k].residue as int by { assert(elok(x.coeffs.v@[k], fpm(x))); }
    assert forall|k: int| 0 <= #[trigger] fpp(x)(k) < fpm(x) by { if 0 <= k <= x.degree { assert(elok(x.coeffs.v@[k], fpm(x))); } }
    assert(dle(fpp(x), x.degree as int));
}
// build: the elements 0..=d are elis(p, a(k)), a is zero above d
pub proof fn lemma_fpmk(x: fp_poly_t, p: int, a: P)
    requires fpst(x), x.degree < fpmax(), p >= 2, can(a, p), dle(a, x.degree as int), forall|k: int| 0 <= k <= x.degree ==> elis(#[trigger] x.coeffs.v@[k], p, a(k))
    ensures fpw(x), fpm(x) == p, fpp(x) == a, a(x.degree as int) != 0 ==> fpok(x)
{
    assert(elis(x.coeffs.v@[0], p, a(0)));
    assert forall|k: int| 0 <= k <= x.degree implies #[trigger] elok(x.coeffs.v@[k], fpm(x)) by { assert(elis(x.coeffs.v@[k], p, a(k))); assert(0 <= a(k) < p); }
    assert forall|k: int| #[trigger] fpp(x)(k) == a(k) by { if 0 <= k <= x.degree { assert(elis(x.coeffs.v@[k], p, a(k))); } }
    lemma_peq(fpp(x), a);
}
pub proof fn lemma_fptrunc(s: Seq<intmod_t>, d: int, e: int) requires 0 <= d <= e, forall|k: int| d < k <= e ==> (#[trigger] s[k]).residue == 0 ensures fps(s, d) == fps(s, e)
{ assert forall|k: int| #[trigger] fps(s, d)(k) == fps(s, e)(k) by { if d < k <= e { assert(s[k].residue == 0); } } lemma_peq(fps(s, d), fps(s, e)); }
pub proof fn lemma_fpcopy(x: fp_poly_t, y: fp_poly_t) requires fpst(x), x.degree == y.degree, y.degree < y.coeffs.v@.len(), forall|k: int| 0 <= k <= y.degree ==> #[trigger] x.coeffs.v@[k] == y.coeffs.v@[k] ensures fpp(x) == fpp(y), fpm(x) == fpm(y), fpw(y) ==> fpw(x), fpok(y) ==> fpok(x), fpdef(y) ==> fpdef(x)
{
    assert(x.coeffs.v@[0] == y.coeffs.v@[0]);
    assert forall|k: int| #[trigger] fpp(x)(k) == fpp(y)(k) by { if 0 <= k <= x.degree { assert(x.coeffs.v@[k] == y.coeffs.v@[k]); } }
    lemma_peq(fpp(x), fpp(y));
    if fpw(y) { assert forall|k: int| 0 <= k <= x.degree implies #[trigger] elok(x.coeffs.v@[k], fpm(x)) by { assert(x.coeffs.v@[k] == y.coeffs.v@[k]); assert(elok(y.coeffs.v@[k], fpm(y))); } }
    assert(x.coeffs.v@[y.degree as int] == y.coeffs.v@[y.degree as int]);
}
pub proof fn lemma_msub0(e: intmod_t) requires e.modulus >= 1 ensures (e.residue as int - e.residue as int) % (e.modulus as int) == 0 { lemma_small_mod(0, e.modulus as nat); }
pub proof fn lemma_fpmod(a: int, b: int, p: int) requires p >= 2 ensures 0 <= a < p ==> (a + 0) % p == a && (a - 0) % p == a && (0 + a) % p == a { if 0 <= a < p { lemma_small_mod(a as nat, p as nat); } }
pub proof fn lemma_pcs_can(p: int, c2: int, c1: int, c0: int) requires p >= 2 ensures 0 <= c2 < p && 0 <= c1 < p && 0 <= c0 < p ==> can(pcs(c2, c1, c0), p), dle(pcs(c2, c1, c0), 2), c2 == 0 ==> dle(pcs(c2, c1, c0), 1), c2 == 0 && c1 == 0 ==> dle(pcs(c2, c1, c0), 0), p > 0 {}
pub proof fn lemma_pcs_pc(c: int) ensures pcs(0, 0, c) == pc(c) { lemma_peq(pcs(0, 0, c), pc(c)); }
pub proof fn lemma_negnz(a: int, p: int) requires p >= 2, 0 <= a < p ensures a != 0 ==> (-a) % p != 0 { if a != 0 { lemma_mod_add_multiples_vanish(-a, p); lemma_small_mod((p - a) as nat, p as nat); } }
pub proof fn lemma_fpmul0(a: P, b: P, p: int) requires p >= 2, can(a, p) ensures forall|k: int| #[trigger] pmul(ptr(a, 0), b, p)(k) == 0
{ assert forall|k: int| #[trigger] ptr(a, 0)(k) == pz()(k) by { assert(k < 0 ==> a(k) == 0); } lemma_peq(ptr(a, 0), pz()); lemma_pmul_zero(b, p); }
pub proof fn lemma_fpmulrow(a: P, b: P, i: int, p: int) requires p >= 2, can(a, p), can(b, p), i >= 0
    ensures forall|k: int| #[trigger] pmul(ptr(a, i + 1), b, p)(k) == (pmul(ptr(a, i), b, p)(k) + mul(a(i), b(k - i)) % p) % p
{
    let m = pmono(a(i), i);
    assert forall|k: int| #[trigger] ptr(a, i + 1)(k) == padd(ptr(a, i), m, p)(k) by { assert(0 <= a(k) < p); if 0 <= a(k) < p { lemma_small_mod(a(k) as nat, p as nat); lemma_small_mod(0, p as nat); } }
    lemma_peq(ptr(a, i + 1), padd(ptr(a, i), m, p));
    lemma_pmul_dist(b, ptr(a, i), m, p);
    lemma_pmul_mono(a(i), i, b, p);
}
pub proof fn lemma_fpmulend(a: P, b: P, d: int, p: int) requires dle(a, d) ensures pmul(ptr(a, d + 1), b, p) == pmul(a, b, p)
{ assert forall|k: int| #[trigger] ptr(a, d + 1)(k) == a(k) by {} lemma_peq(ptr(a, d + 1), a); }
pub proof fn lemma_fpdle(a: P, b: P, d: int, e: int, p: int) requires p >= 2, can(a, p), can(b, p), dle(a, d), dle(b, e) ensures d >= e ==> dle(padd(a, b, p), d) && dle(psub(a, b, p), d), d <= e ==> dle(padd(a, b, p), e) && dle(psub(a, b, p), e), dle(pneg(a, p), d)
{ lemma_small_mod(0, p as nat); }
pub proof fn lemma_fpmulrng(a: P, b: P, i: int, d: int, p: int) requires p >= 2, can(b, p), dle(b, d) ensures forall|k: int| (k < i || k > i + d) ==> mul(a(i), #[trigger] b(k - i)) % p == 0
{ lemma_small_mod(0, p as nat); assert forall|k: int| (k < i || k > i + d) implies mul(a(i), #[trigger] b(k - i)) % p == 0 by { assert(b(k - i) == 0); assert(mul(a(i), 0int) == 0) by(nonlinear_arith); } }

// digits of b in base m
pub open spec fn pdig(b: int, m: int) -> P { |k: int| if k >= 0 { (b / pw(m, k as nat)) % m } else { 0int } }
pub proof fn lemma_pdig0(b: int, m: int) ensures b / pw(m, 0) == b {}
pub proof fn lemma_pw_ge2(m: int, k: nat) requires m >= 2 ensures pw(m, k) >= pw(2, k), pw(m, k) >= 1, pw(m, k) > k decreases k
{ if k > 0 { lemma_pw_ge2(m, (k - 1) as nat); lemma_pw_ge2(2, (k - 1) as nat); let x = pw(m, (k - 1) as nat); let y = pw(2, (k - 1) as nat); assert(m * x >= 2 * y && m * x >= 1 && m * x >= 2 * x) by(nonlinear_arith) requires m >= 2, x >= y, y >= 1; } }
pub proof fn lemma_pw_mono(m: int, j: nat, k: nat) requires m >= 2, j <= k ensures pw(m, j) <= pw(m, k) decreases k
{ if j < k { lemma_pw_mono(m, j, (k - 1) as nat); lemma_pw_ge2(m, (k - 1) as nat); let x = pw(m, (k - 1) as nat); assert(m * x >= x) by(nonlinear_arith) requires m >= 2, x >= 1; } }
pub proof fn lemma_pw231() ensures pw(2, 31) == 0x8000_0000 { reveal_with_fuel(pw, 32); }
pub proof fn lemma_pdigdiv(b: int, m: int, d: int) requires b >= 0, m >= 2, d >= 0 ensures (b / pw(m, d as nat)) / m == b / pw(m, (d + 1) as nat), b / pw(m, d as nat) >= 0, pdig(b, m)(d) == (b / pw(m, d as nat)) % m
{
    lemma_pw_ge2(m, d as nat); let x = pw(m, d as nat);
    vstd::arithmetic::div_mod::lemma_div_denominator(b, x, m); assert(pw(m, (d + 1) as nat) == m * x); assert(m * x == x * m) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b, x);
}
pub proof fn lemma_pdigstep(b: int, m: int, d: int) requires 0 <= b < 0x8000_0000, m >= 2, d >= 0, b / pw(m, d as nat) > 0
    ensures pw(m, d as nat) <= b, d < 31, (b / pw(m, d as nat)) / m == b / pw(m, (d + 1) as nat), (b / pw(m, d as nat)) / m < b / pw(m, d as nat), (b / pw(m, d as nat)) / m >= 0, trem(b / pw(m, d as nat), m) == (b / pw(m, d as nat)) % m
{
    let x = pw(m, d as nat); lemma_pw_ge2(m, d as nat); lemma_pdigdiv(b, m, d);
    if b < x { vstd::arithmetic::div_mod::lemma_basic_div(b, x); }
    if d >= 31 { lemma_pw_mono(2, 31, d as nat); lemma_pw231(); }
    let t = b / x; vstd::arithmetic::div_mod::lemma_div_decreases(t, m); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(t, m); lemma_trem_pos(t, m);
}
pub proof fn lemma_pdigend(b: int, m: int, d: int) requires b >= 0, m >= 2, d >= -1 ensures d >= 0 && b / pw(m, (d + 1) as nat) == 0 ==> b < pw(m, (d + 1) as nat)
{ if d >= 0 { let x = pw(m, (d + 1) as nat); lemma_pw_ge2(m, (d + 1) as nat); if b >= x && b / x == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, x); lemma_mod_bound(b, x); assert(x * 0 == 0); } } }
pub proof fn lemma_pdigfin(b: int, m: int, d: int) requires b >= 0, m >= 2, d >= 0, b > 0 ==> pw(m, d as nat) <= b < pw(m, (d + 1) as nat), b == 0 ==> d == 0
    ensures can(pdig(b, m), m), dle(pdig(b, m), d), d > 0 ==> pdig(b, m)(d) != 0
{
    assert forall|k: int| 0 <= #[trigger] pdig(b, m)(k) < m by { if k >= 0 { lemma_mod_bound(b / pw(m, k as nat), m); } }
    assert forall|k: int| k > d implies #[trigger] pdig(b, m)(k) == 0 by { lemma_pw_ge2(m, k as nat); if b > 0 { lemma_pw_mono(m, (d + 1) as nat, k as nat); } vstd::arithmetic::div_mod::lemma_basic_div(b, pw(m, k as nat)); lemma_small_mod(0, m as nat); }
    if d > 0 {
        let x = pw(m, d as nat); let q = b / x; lemma_pw_ge2(m, d as nat);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, x); lemma_mod_bound(b, x);
        assert(pw(m, (d + 1) as nat) == m * x);
        assert(q >= 1) by(nonlinear_arith) requires x * q + (b % x) == b, b >= x, b % x < x, x >= 1;
        assert(q < m) by(nonlinear_arith) requires x * q + (b % x) == b, b < m * x, b % x >= 0, x >= 1;
        lemma_small_mod(q as nat, m as nat);
    }
}
// scalars
pub proof fn lemma_mulc(a: int, c: int) ensures a * c == c * a { assert(a * c == c * a) by(nonlinear_arith); }
pub proof fn lemma_pscale_can(a: P, c: int, p: int, d: int) requires p >= 2, can(a, p), dle(a, d) ensures can(pscale(a, c, p), p), dle(pscale(a, c, p), d)
{ assert(c * 0 == 0); lemma_small_mod(0, p as nat); assert forall|k: int| 0 <= #[trigger] pscale(a, c, p)(k) < p by { lemma_mod_bound(c * a(k), p); } assert forall|k: int| k < 0 || k > d implies #[trigger] pscale(a, c, p)(k) == 0 by { assert(a(k) == 0); } }
pub proof fn lemma_fpquot(x: fp_poly_t, y: fp_poly_t, c: int, p: int) requires fpw(x), fpw(y), x.degree == y.degree, fpm(x) == p, fpm(y) == p, forall|k: int| 0 <= k <= y.degree ==> elok(#[trigger] y.coeffs.v@[k], p) && mquot(y.coeffs.v@[k].residue as int, fpp(x)(k), c, p) ensures fpp(x) == pscale(fpp(y), c, p)
{ lemma_small_mod(0, p as nat); assert(c * 0 == 0); assert forall|k: int| #[trigger] fpp(x)(k) == pscale(fpp(y), c, p)(k) by { if 0 <= k <= x.degree { assert(mquot(y.coeffs.v@[k].residue as int, fpp(x)(k), c, p)); lemma_mulc(fpp(y)(k), c); } } lemma_peq(fpp(x), pscale(fpp(y), c, p)); }
// x +- constant
pub proof fn lemma_fpsc(x: fp_poly_t, y: fp_poly_t, c: int, p: int)
    requires fpok(x), fpm(x) == p, fpst(y), y.degree == x.degree, 0 <= c < p, y.coeffs.v@[0].modulus == p, forall|k: int| 1 <= k <= x.degree ==> #[trigger] y.coeffs.v@[k] == x.coeffs.v@[k]
    ensures can(padd(fpp(x), pc(c), p), p), can(psub(fpp(x), pc(c), p), p), dle(padd(fpp(x), pc(c), p), x.degree as int), dle(psub(fpp(x), pc(c), p), x.degree as int),
      y.coeffs.v@[0].residue as int == (x.coeffs.v@[0].residue + c) % p ==> (forall|k: int| 0 <= k <= y.degree ==> elis(#[trigger] y.coeffs.v@[k], p, padd(fpp(x), pc(c), p)(k))),
      y.coeffs.v@[0].residue as int == (x.coeffs.v@[0].residue - c) % p ==> (forall|k: int| 0 <= k <= y.degree ==> elis(#[trigger] y.coeffs.v@[k], p, psub(fpp(x), pc(c), p)(k)))
{
    lemma_fp(x); lemma_pol_const(c, p); lemma_padd_can(fpp(x), pc(c), p); lemma_fpdle(fpp(x), pc(c), x.degree as int, 0, p);
    assert forall|k: int| 1 <= k <= y.degree implies elis(#[trigger] y.coeffs.v@[k], p, padd(fpp(x), pc(c), p)(k)) && elis(y.coeffs.v@[k], p, psub(fpp(x), pc(c), p)(k)) by { assert(elok(x.coeffs.v@[k], p)); lemma_fpmod(fpp(x)(k), 0, p); }
}
pub open spec fn pset(a: P, n: int, c: int) -> P { |k: int| if k == n { c } else { a(k) } }
pub proof fn lemma_fpset(x: fp_poly_t, o: fp_poly_t, n: int, c: intmod_t)
    requires fpw(o), mset(c), c.modulus as int == fpm(o), 0 <= n < fpmax(), fpst(x), x.degree == (if o.degree > n { o.degree as int } else { n }), x.coeffs.v@[n] == c, forall|k: int| 0 <= k <= o.degree && k != n ==> #[trigger] x.coeffs.v@[k] == o.coeffs.v@[k], forall|k: int| o.degree < k < n ==> elis(#[trigger] x.coeffs.v@[k], fpm(o), 0)
    ensures fpw(x), fpm(x) == fpm(o), fpp(x) == pset(fpp(o), n, c.residue as int), n == x.degree && c.residue != 0 ==> fpok(x), n < x.degree && fpok(o) ==> fpok(x)
{
    lemma_fp(o); let a = pset(fpp(o), n, c.residue as int); let p = fpm(o);
    assert forall|k: int| 0 <= k <= x.degree implies elis(#[trigger] x.coeffs.v@[k], p, a(k)) by { if k == n {} else if k <= o.degree { assert(x.coeffs.v@[k] == o.coeffs.v@[k]); assert(elok(o.coeffs.v@[k], p)); } else { assert(elis(x.coeffs.v@[k], p, 0)); } }
    lemma_fpmk(x, p, a);
}
// powers
pub open spec fn fpexpinv(rd: int, xd: int, e: int, nn: int) -> bool { rd + mul(xd, e) <= nn && (e == 0 || xd <= 2 * nn) && rd >= 0 && xd >= 0 }
pub proof fn lemma_fpexp0(nn: int, d: int, e: int) requires nn == d * e, d >= 0, e >= 0 ensures fpexpinv(0, d, e, nn), nn >= 0, e == 0 ==> nn == 0, 2 * d * e == 2 * nn
{ assert(2 * d * e == 2 * (d * e)) by(nonlinear_arith); assert(nn >= 0) by(nonlinear_arith) requires nn == d * e, d >= 0, e >= 0; if e >= 1 { assert(d <= nn) by(nonlinear_arith) requires nn == d * e, d >= 0, e >= 1; } }
pub proof fn lemma_fpexp(rd: int, xd: int, e: int, nn: int) requires fpexpinv(rd, xd, e, nn), e >= 1
    ensures e % 2 == 1 ==> rd + xd <= nn && (forall|r: int, x: int| 0 <= r <= rd + xd && 0 <= x <= 2 * xd ==> #[trigger] fpexpinv(r, x, e / 2, nn)), e % 2 == 0 ==> (forall|x: int| 0 <= x <= 2 * xd ==> #[trigger] fpexpinv(rd, x, e / 2, nn)), xd <= nn
{
    let h = e / 2;
    assert(xd <= mul(xd, e)) by(nonlinear_arith) requires xd >= 0, e >= 1;
    assert forall|x: int| 0 <= x <= 2 * xd implies #[trigger] mul(x, h) <= mul(2 * xd, h) by { assert(mul(x, h) <= mul(2 * xd, h)) by(nonlinear_arith) requires x <= 2 * xd, h >= 0; }
    if e % 2 == 1 { assert(xd + mul(2 * xd, h) == mul(xd, e)) by(nonlinear_arith) requires e == 2 * h + 1; } else { assert(mul(2 * xd, h) == mul(xd, e)) by(nonlinear_arith) requires e == 2 * h; }
}
pub proof fn lemma_fpzero(x: fp_poly_t) requires fpok(x) ensures (fpp(x) == pz()) == (x.degree == 0 && x.coeffs.v@[0].residue == 0)
{ lemma_fp(x); if fpp(x) == pz() { assert(fpp(x)(x.degree as int) == 0); } if x.degree == 0 && x.coeffs.v@[0].residue == 0 { lemma_peq(fpp(x), pz()); } }
pub proof fn lemma_pc0() ensures pc(0) == pz() { lemma_peq(pc(0), pz()); }
pub proof fn lemma_deg0(a: P) requires dle(a, 0), forall|k: int| k < 0 ==> #[trigger] a(k) == 0 ensures a == pc(a(0)) { lemma_peq(a, pc(a(0))); }
pub proof fn lemma_pmul_pc(c: int, b: int, p: int) requires p >= 2, 0 <= b < p ensures pmul(pc(c), pc(b), p) == pc((c * b) % p)
{
    lemma_peq(pmono(c, 0), pc(c)); lemma_pmul_mono(c, 0, pc(b), p); lemma_small_mod(0, p as nat); assert(mul(c, 0int) == 0) by(nonlinear_arith);
    assert forall|k: int| #[trigger] pmul(pc(c), pc(b), p)(k) == pc((c * b) % p)(k) by { assert(pmul(pmono(c, 0), pc(b), p)(k) == mul(c, pc(b)(k - 0)) % p); if k == 0 { assert(mul(c, b) == c * b); } }
    lemma_peq(pmul(pc(c), pc(b), p), pc((c * b) % p));
}
pub proof fn lemma_ppow_pc(c: int, e: nat, p: int) requires p >= 2 ensures ppow(pc(c), e, p) == pc(pw(c, e) % p) decreases e
{
    if e == 0 { lemma_small_mod(1, p as nat); } else { lemma_ppow_pc(c, (e - 1) as nat, p); let w = pw(c, (e - 1) as nat); lemma_pmul_pc(c, w % p, p); vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(c, w, p); }
}
pub proof fn lemma_ppow_pz(e: nat, p: int) requires p >= 2 ensures e > 0 ==> ppow(pz(), e, p) == pz() { if e > 0 { lemma_pmul_zero(ppow(pz(), (e - 1) as nat, p), p); } }
pub proof fn lemma_pderiv_can(a: P, p: int, d: int) requires p >= 2, can(a, p), dle(a, d) ensures can(pderiv(a, p), p), dle(pderiv(a, p), d - 1), d == 0 ==> pderiv(a, p) == pz()
{
    lemma_small_mod(0, p as nat);
    assert forall|k: int| 0 <= #[trigger] pderiv(a, p)(k) < p by { if k >= 0 { lemma_mod_bound((k + 1) * a(k + 1), p); } }
    assert forall|k: int| k > d - 1 implies #[trigger] pderiv(a, p)(k) == 0 by { if k >= 0 { assert(a(k + 1) == 0); assert((k + 1) * 0 == 0); } }
    if d == 0 { assert forall|k: int| #[trigger] pderiv(a, p)(k) == pz()(k) by {} lemma_peq(pderiv(a, p), pz()); }
}
pub proof fn lemma_mulmodr(a: int, i: int, p: int) requires p >= 2 ensures (a * (i % p)) % p == (i * a) % p { vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(a, i, p); lemma_mulc(a, i); }
// evaluation
pub open spec fn pevt(a: P, c: int) -> P { |k: int| a(k) * pw(c, k as nat) }
pub open spec fn hor(a: P, c: int, i: int, d: int, p: int) -> int decreases d + 1 - i { if i > d { 0 } else { (hor(a, c, i + 1, d, p) * c + a(i)) % p } }
pub proof fn lemma_hor1(a: P, c: int, d: int, p: int) requires p >= 2, 0 <= a(d) < p ensures hor(a, c, d, d, p) == a(d) { assert(hor(a, c, d + 1, d, p) == 0); assert(0 * c == 0); lemma_small_mod(a(d) as nat, p as nat); }
pub proof fn lemma_horstep(a: P, c: int, i: int, d: int, p: int) requires p >= 2, i <= d ensures hor(a, c, i, d, p) == ((hor(a, c, i + 1, d, p) * c) % p + a(i)) % p
{ vstd::arithmetic::div_mod::lemma_add_mod_noop(hor(a, c, i + 1, d, p) * c, a(i), p); vstd::arithmetic::div_mod::lemma_add_mod_noop((hor(a, c, i + 1, d, p) * c) % p, a(i), p); vstd::arithmetic::div_mod::lemma_mod_twice(hor(a, c, i + 1, d, p) * c, p); }
pub proof fn lemma_horner(a: P, c: int, i: int, d: int, p: int) requires p >= 2, 0 <= i <= d + 1 ensures (psum(pevt(a, c), i) + pw(c, i as nat) * hor(a, c, i, d, p)) % p == psum(pevt(a, c), d + 1) % p, i == 0 ==> hor(a, c, 0, d, p) == psum(pevt(a, c), d + 1) % p decreases d + 1 - i
{
    let s = psum(pevt(a, c), i); let w = pw(c, i as nat); let h = hor(a, c, i, d, p);
    if i > d { assert(w * 0 == 0); } else {
        lemma_horner(a, c, i + 1, d, p); let g = hor(a, c, i + 1, d, p); let v = a(i);
        assert(psum(pevt(a, c), i + 1) == s + v * w); assert(pw(c, (i + 1) as nat) == c * w);
        // w*((g c + v) % p) = w(g c + v)
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(w, g * c + v, p);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(s, w * h, p); vstd::arithmetic::div_mod::lemma_add_mod_noop(s, w * (g * c + v), p);
        assert(s + w * (g * c + v) == (s + v * w) + (c * w) * g) by(nonlinear_arith);
    }
    if i == 0 { assert(1 * h == h); assert(0 <= h < p) by { if d >= 0 { lemma_mod_bound(hor(a, c, 1, d, p) * c + a(0), p); } } lemma_small_mod(h as nat, p as nat); }
}
// comparison
pub proof fn lemma_pceq(a: P, v: int, d: int) requires isdeg(a, d), forall|k: int| k < 0 ==> #[trigger] a(k) == 0 ensures (a == pc(v)) == (d == 0 && a(0) == v) { if d == 0 { lemma_deg0(a); } if a == pc(v) { assert(a(d) == pc(v)(d)); } }
pub proof fn lemma_fpdir(a: P, b: P, d: int, e: int) requires isdeg(a, d), isdeg(b, e), forall|k: int| 0 <= #[trigger] a(k), forall|k: int| 0 <= #[trigger] b(k) ensures d < e ==> dirspec(-1, a, b), d > e ==> dirspec(1, a, b)
{ lemma_plt_excl(a, b); lemma_plt_excl(b, a); if d < e { assert(0 <= a(e)); assert(0 <= b(e)); assert(plt_at(a, b, e)); } if d > e { assert(0 <= a(d)); assert(0 <= b(d)); assert(plt_at(b, a, d)); } }
pub proof fn lemma_fpdirat(a: P, b: P, i: int, d: int) requires dle(a, d), dle(b, d), forall|k: int| i < k <= d ==> #[trigger] a(k) == b(k) ensures a(i) < b(i) ==> dirspec(-1, a, b), a(i) > b(i) ==> dirspec(1, a, b)
{ lemma_plt_excl(a, b); lemma_plt_excl(b, a); assert forall|m: int| m > i implies #[trigger] a(m) == b(m) by { if m > d { assert(b(m) == 0); } } if a(i) < b(i) { assert(plt_at(a, b, i)); } if a(i) > b(i) { assert(plt_at(b, a, i)); } }
pub proof fn lemma_fpdireq(a: P, b: P, d: int) requires dle(a, d), dle(b, d), forall|k: int| k < 0 ==> #[trigger] a(k) == 0, forall|k: int| k < 0 ==> #[trigger] b(k) == 0, forall|k: int| 0 <= k <= d ==> #[trigger] a(k) == b(k) ensures a == b, dirspec(0, a, b)
{ assert forall|k: int| #[trigger] a(k) == b(k) by { if k > d { assert(b(k) == 0); } if k < 0 { assert(b(k) == 0); } } lemma_peq(a, b); lemma_plt_excl(a, b); }
// increment
pub open spec fn pinc_at(a: P, b: P, i: int, p: int) -> bool { i >= 0 && a(i) < p - 1 && b(i) == a(i) + 1 && (forall|k: int| 0 <= k < i ==> #[trigger] a(k) == p - 1 && b(k) == 0) && (forall|k: int| k > i || k < 0 ==> #[trigger] b(k) == a(k)) }
pub open spec fn pinc(a: P, b: P, p: int) -> bool { exists|i: int| pinc_at(a, b, i, p) }
pub proof fn lemma_incmod(a: int, p: int) requires p >= 2, 0 <= a < p ensures a < p - 1 ==> (a + 1) % p == a + 1 { if a < p - 1 { lemma_small_mod((a + 1) as nat, p as nat); } }
pub proof fn lemma_fpinc(x: fp_poly_t, o: fp_poly_t, i: int, p: int)
    requires fpok(o), p == fpm(o), fpst(x), x.degree == o.degree, 0 <= i <= o.degree, fpp(o)(i) < p - 1, elis(x.coeffs.v@[i], p, fpp(o)(i) + 1), forall|k: int| 0 <= k < i ==> elis(#[trigger] x.coeffs.v@[k], p, 0) && fpp(o)(k) == p - 1, forall|k: int| i < k <= o.degree ==> #[trigger] x.coeffs.v@[k] == o.coeffs.v@[k]
    ensures fpok(x), fpm(x) == p, pinc(fpp(o), fpp(x), p)
{
    lemma_fp(o); let b: P = |k: int| if k == i { fpp(o)(k) + 1 } else if 0 <= k < i { 0 } else { fpp(o)(k) };
    assert forall|k: int| 0 <= k <= x.degree implies elis(#[trigger] x.coeffs.v@[k], p, b(k)) by { if k < i { assert(elis(x.coeffs.v@[k], p, 0)); } else if k > i { assert(x.coeffs.v@[k] == o.coeffs.v@[k]); assert(elok(o.coeffs.v@[k], p)); } }
    assert forall|k: int| 0 <= #[trigger] b(k) < p by { assert(0 <= fpp(o)(k) < p); }
    lemma_fpmk(x, p, b);
    assert forall|k: int| 0 <= k < i implies #[trigger] fpp(o)(k) == p - 1 && fpp(x)(k) == 0 by { assert(elis(x.coeffs.v@[k], p, 0)); assert(b(k) == 0); }
    assert forall|k: int| (k > i || k < 0) implies #[trigger] fpp(x)(k) == fpp(o)(k) by { assert(b(k) == fpp(o)(k)); }
    assert(b(i) == fpp(o)(i) + 1);
    assert(pinc_at(fpp(o), fpp(x), i, p));
    let d = x.degree as int; if d > 0 { assert(fpp(x)(d) != 0) by { if d == i { } else { assert(fpp(x)(d) == fpp(o)(d)); } } }
}
pub proof fn lemma_fpinc0(x: fp_poly_t, o: fp_poly_t, p: int)
    requires fpok(o), p == fpm(o), fpst(x), x.degree == o.degree, forall|k: int| 0 <= k <= o.degree ==> elis(#[trigger] x.coeffs.v@[k], p, 0) && fpp(o)(k) == p - 1
    ensures fpw(x), fpm(x) == p, fpp(x) == pz(), pinc(fpp(o), pset(pz(), o.degree + 1, 1), p)
{
    lemma_fp(o); lemma_fpmk(x, p, pz()); let b = pset(pz(), o.degree + 1, 1); let i = o.degree + 1;
    assert forall|k: int| 0 <= k < i implies #[trigger] fpp(o)(k) == p - 1 && b(k) == 0 by { assert(elis(x.coeffs.v@[k], p, 0)); }
    assert forall|k: int| (k > i || k < 0) implies #[trigger] b(k) == fpp(o)(k) by { }
    assert(pinc_at(fpp(o), b, i, p));
}
// times x
pub proof fn lemma_xkp(a: P, p: int, d: int) requires p >= 2, can(a, p), dle(a, d), d >= 0 ensures can(pmul(pxk(1), a, p), p), dle(pmul(pxk(1), a, p), d + 1), forall|k: int| #[trigger] pmul(pxk(1), a, p)(k) == a(k - 1)
{
    lemma_pmul_can(pxk(1), a, p); lemma_peq(pmono(1, 1), pxk(1)); lemma_pmul_mono(1, 1, a, p);
    assert forall|k: int| #[trigger] pmul(pxk(1), a, p)(k) == a(k - 1) by { assert(pmul(pmono(1, 1), a, p)(k) == mul(1, a(k - 1)) % p); assert(mul(1int, a(k - 1)) == a(k - 1)) by(nonlinear_arith); assert(0 <= a(k - 1) < p); lemma_small_mod(a(k - 1) as nat, p as nat); }
    assert forall|k: int| k > d + 1 implies #[trigger] pmul(pxk(1), a, p)(k) == 0 by { assert(a(k - 1) == 0); }
}
pub proof fn lemma_fppaa(x: fp_poly_t, a: P, e: int, p: int, c: int)
    requires p >= 2, can(a, p), fpst(x), x.degree < fpmax(), elis(x.coeffs.v@[0], p, c), 0 <= c < p, isdeg(pmul(pxk(1), a, p), x.degree as int), e >= 0, dle(a, e), forall|k: int| 1 <= k <= x.degree ==> elis(#[trigger] x.coeffs.v@[k], p, pmul(pxk(1), a, p)(k))
    ensures fpis(x, p, padd(pmul(pxk(1), a, p), pc(c), p))
{
    let w = pmul(pxk(1), a, p); lemma_xkp(a, p, e); let b = padd(w, pc(c), p);
    lemma_pol_const(c, p); lemma_padd_can(w, pc(c), p);
    assert forall|k: int| #[trigger] b(k) == (if k == 0 { c } else { w(k) }) by { assert(w(k) == a(k - 1)); assert(0 <= a(k - 1) < p); assert(k == 0 ==> a(k - 1) == 0); lemma_fpmod(w(k), 0, p); lemma_fpmod(c, 0, p); }
    assert forall|k: int| k > x.degree implies #[trigger] b(k) == 0 by { assert(w(k) == 0); }
    assert forall|k: int| 0 <= k <= x.degree implies elis(#[trigger] x.coeffs.v@[k], p, b(k)) by { if k > 0 { assert(elis(x.coeffs.v@[k], p, w(k))); } }
    lemma_fpmk(x, p, b);
}
pub proof fn lemma_fpmulnext(a: P, b: P, i: int, d: int, p: int) requires p >= 2, can(a, p), can(b, p), i >= 0, dle(b, d)
    ensures forall|k: int| #[trigger] pmul(ptr(a, i + 1), b, p)(k) == (if i <= k <= i + d { (pmul(ptr(a, i), b, p)(k) + mul(a(i), b(k - i)) % p) % p } else { pmul(ptr(a, i), b, p)(k) })
{
    lemma_fpmulrow(a, b, i, p); lemma_fpmulrng(a, b, i, d, p); lemma_pmul_can(ptr(a, i), b, p);
    assert forall|k: int| #[trigger] pmul(ptr(a, i + 1), b, p)(k) == (if i <= k <= i + d { (pmul(ptr(a, i), b, p)(k) + mul(a(i), b(k - i)) % p) % p } else { pmul(ptr(a, i), b, p)(k) }) by {
        let s = pmul(ptr(a, i), b, p)(k); assert(0 <= s < p); if k < i || k > i + d { assert(mul(a(i), b(k - i)) % p == 0); lemma_small_mod(s as nat, p as nat); }
    }
}
pub proof fn lemma_fpand1(e: i32) requires e >= 0 ensures (e & 1i32) as int == e as int % 2, ((e as u32) >> 1u32) as int == e as int / 2, ((e as u32) >> 1u32) as i32 as int == e as int / 2
{ assert((e & 1i32) as int == e as int % 2) by(bit_vector) requires e >= 0; let u = e as u32; assert(u >> 1u32 == u / 2) by(bit_vector); }
// p-th roots: a(x) = r(x^p)
pub open spec fn isxp(a: P, p: int) -> bool { forall|k: int| k % p != 0 ==> #[trigger] a(k) == 0 }
pub open spec fn pdec(a: P, p: int) -> P { |k: int| if k >= 0 { a(mul(k, p)) } else { 0int } }
pub proof fn lemma_sidi(si: int, di: int, p: int, d: int) requires p >= 2, si == mul(di, p), di >= 0, 0 <= si <= d, d < fpmax(), p < 0x8000_0000 ensures di <= si, di <= d, si + p < 0x8000_0000, mul(di + 1, p) == si + p, di >= 1 ==> p <= si
{ assert(di <= si) by(nonlinear_arith) requires si == di * p, p >= 2, di >= 0; if di >= 1 { assert(p <= si) by(nonlinear_arith) requires si == di * p, di >= 1, p >= 0; } assert((di + 1) * p == di * p + p) by(nonlinear_arith); }
pub proof fn lemma_sik(k: int, si: int, di: int, p: int) requires p >= 2, si == mul(di, p) ensures si < k < si + p ==> k % p != 0, si % p == 0
{ lemma_mod_multiples_basic(di, p); if si < k < si + p { let r = k - si; assert(k == p * di + r) by(nonlinear_arith) requires k == si + r, si == di * p; lemma_mod_multiples_vanish(di, r, p); lemma_small_mod(r as nat, p as nat); } }
pub proof fn lemma_pdecend(a: P, p: int, si: int, di: int, d: int) requires p >= 2, si == mul(di, p), si > d, can(a, p), dle(a, d), di >= 0
    ensures can(pdec(a, p), p), dle(pdec(a, p), d), forall|k: int| k >= di ==> #[trigger] pdec(a, p)(k) == 0
{
    assert forall|k: int| k >= di implies #[trigger] pdec(a, p)(k) == 0 by { assert(mul(k, p) >= mul(di, p)) by(nonlinear_arith) requires k >= di, p >= 0; assert(a(mul(k, p)) == 0); }
    assert forall|k: int| k > d implies #[trigger] pdec(a, p)(k) == 0 by { if k >= 0 { assert(mul(k, p) >= k) by(nonlinear_arith) requires k >= 0, p >= 1; assert(a(mul(k, p)) == 0); } }
    assert forall|k: int| 0 <= #[trigger] pdec(a, p)(k) < p by { if k >= 0 { assert(0 <= a(mul(k, p)) < p); } }
}
