// ---- rationals: lowest terms, value equality by cross multiplication ----
pub open spec fn rok(a: intrat_t) -> bool { a.denom >= 1 && a.numer > i32::MIN && coprime(a.numer as int, a.denom as int) }
pub open spec fn rsame(n1: int, d1: int, n2: int, d2: int) -> bool { n1 * d2 == d1 * n2 }
pub open spec fn fits(x: int) -> bool { -0x8000_0000 < x < 0x8000_0000 }
pub open spec fn xnum(n: int, d: int, e: int) -> int { if e >= 0 { n } else if n > 0 { d } else { -d } }
pub open spec fn xden(n: int, d: int, e: int) -> int { if e >= 0 { d } else if n > 0 { n } else { -n } }
pub open spec fn eabs(e: int) -> nat { if e >= 0 { e as nat } else { (-e) as nat } }
pub proof fn lemma_cop_sym(a: int, b: int) requires coprime(a, b) ensures coprime(b, a)
{ lemma_bz(a, b); lemma_bz(b, a); let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * a + y * b); assert(1 == y * b + x * a); }
pub proof fn lemma_cop1(a: int) ensures coprime(a, 1)
{ lemma_bz(a, 1); assert(0 * a == 0); assert(1 == 0 * a + 1 * 1); }
pub proof fn lemma_cop_neg(a: int, b: int) ensures coprime(a, b) ==> coprime(-a, b)
{ if coprime(a, b) { lemma_bz(a, b); lemma_bz(-a, b); let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * a + y * b); assert((-x) * (-a) == x * a) by(nonlinear_arith); assert(1 == (-x) * (-a) + y * b); } }
pub proof fn lemma_mul_pos(a: int, b: int) ensures (a >= 1 && b >= 1) ==> a * b >= 1
{ if a >= 1 && b >= 1 { assert(a * b >= 1) by(nonlinear_arith) requires a >= 1, b >= 1; } }
pub proof fn lemma_mul_zero(a: int, b: int) ensures a >= 1 ==> (a * b == 0 <==> b == 0)
{ if a >= 1 { assert(a * b == 0 <==> b == 0) by(nonlinear_arith) requires a >= 1; } }
pub proof fn lemma_mul_comm(a: int, b: int) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn lemma_div_neg_all(a: int, b: int)
    ensures (-a) * b == -(a * b), (-b) * a == -(b * a)
{ assert((-a) * b == -(a * b)) by(nonlinear_arith); assert((-b) * a == -(b * a)) by(nonlinear_arith); }
pub proof fn lemma_simplify(n: int, d: int, g: int)
    requires d >= 1, g >= 1, is_gcd(g, n, d)
    ensures tdiv(n, g) * g == n, tdiv(d, g) * g == d, tdiv(d, g) >= 1, coprime(tdiv(n, g), tdiv(d, g)), -abs_(n) <= tdiv(n, g) <= abs_(n), tdiv(d, g) <= d
{
    assert(cdiv(g, n, d));
    let k = choose|k: int| n == #[trigger] (g * k); let l = choose|l: int| d == #[trigger] (g * l);
    lemma_trem(n, g); lemma_tdiv_bound(n, g); lemma_trem(d, g); lemma_tdiv_bound(d, g);
    let qn = tdiv(n, g); let qd = tdiv(d, g);
    assert(g * (k - qn) == g * k - g * qn) by(nonlinear_arith);
    assert(k == qn) by(nonlinear_arith) requires g * (k - qn) == trem(n, g), -g < trem(n, g) < g, g >= 1;
    assert(g * (l - qd) == g * l - g * qd) by(nonlinear_arith);
    assert(l == qd) by(nonlinear_arith) requires g * (l - qd) == trem(d, g), -g < trem(d, g) < g, g >= 1;
    lemma_mul_comm(g, qn); lemma_mul_comm(g, qd);
    assert(qd >= 1) by(nonlinear_arith) requires g * qd == d, d >= 1, g >= 1;
    lemma_bezout(n, d, g);
    let (x, y) = choose|x: int, y: int| g == #[trigger] (x * n + y * d);
    lemma_bz(qn, qd);
    let w = x * qn + y * qd;
    assert(x * (g * qn) == g * (x * qn)) by(nonlinear_arith); assert(y * (g * qd) == g * (y * qd)) by(nonlinear_arith);
    assert(g * (x * qn) + g * (y * qd) == g * (x * qn + y * qd)) by(nonlinear_arith);
    assert(w == 1) by(nonlinear_arith) requires g == g * w, g >= 1;
    assert(1 == x * qn + y * qd);
}
pub proof fn lemma_simplify_same(qn: int, qd: int, g: int, n0: int, d0: int)
    ensures (g >= 1 && qn * g == n0 && qd * g == d0) ==> rsame(qn, qd, n0, d0), (g >= 1 && qn * g == -n0 && qd * g == -d0) ==> rsame(qn, qd, n0, d0)
{
    assert(qn * (qd * g) == qd * (qn * g)) by(nonlinear_arith);
    assert(qn * (-d0) == -(qn * d0)) by(nonlinear_arith); assert(qd * (-n0) == -(qd * n0)) by(nonlinear_arith);
}
// lowest terms are unique
pub proof fn lemma_rat_unique(n1: int, d1: int, n2: int, d2: int)
    requires d1 >= 1, d2 >= 1, coprime(n1, d1), coprime(n2, d2)
    ensures rsame(n1, d1, n2, d2) <==> (n1 == n2 && d1 == d2)
{
    if rsame(n1, d1, n2, d2) {
        assert(n1 * d2 == d1 * n2);
        lemma_cop_sym(n1, d1); lemma_cop_sym(n2, d2);
        assert(divides(d1, n1 * d2)); lemma_gauss(d1, n1, d2);
        assert(n2 * d1 == d2 * n1) by(nonlinear_arith) requires n1 * d2 == d1 * n2;
        assert(divides(d2, n2 * d1)); lemma_gauss(d2, n2, d1);
        let k = choose|k: int| d2 == #[trigger] (d1 * k); let l = choose|l: int| d1 == #[trigger] (d2 * l);
        assert(k >= 1) by(nonlinear_arith) requires d2 == d1 * k, d2 >= 1, d1 >= 1;
        assert(l >= 1) by(nonlinear_arith) requires d1 == d2 * l, d2 >= 1, d1 >= 1;
        assert(d2 >= d1) by(nonlinear_arith) requires d2 == d1 * k, k >= 1, d1 >= 1;
        assert(d1 >= d2) by(nonlinear_arith) requires d1 == d2 * l, l >= 1, d2 >= 1;
        assert(n1 == n2) by(nonlinear_arith) requires n1 * d1 == d1 * n2, d1 >= 1;
    } else if n1 == n2 && d1 == d2 { lemma_mul_comm(n1, d1); }
}
pub proof fn lemma_rat_int(n: int, d: int, k: int)
    ensures (d >= 1 && coprime(n, d) && rsame(n, d, k, 1)) ==> (n == k && d == 1)
{ if d >= 1 && coprime(n, d) && rsame(n, d, k, 1) { lemma_cop1(k); lemma_rat_unique(n, d, k, 1); } }
pub proof fn lemma_rat_eq_int(n: int, d: int, k: int)
    requires d >= 1, coprime(n, d)
    ensures rsame(n, d, k, 1) <==> (n == k && d == 1)
{ lemma_cop1(k); lemma_rat_unique(n, d, k, 1); }
pub proof fn lemma_rat_zero(n: int, d: int, s: int)
    ensures (d >= 1 && coprime(n, d) && rsame(n, d, 0, s) && s >= 1) ==> (n == 0 && d == 1)
{
    if d >= 1 && coprime(n, d) && rsame(n, d, 0, s) && s >= 1 {
        assert(n == 0) by(nonlinear_arith) requires n * s == d * 0, s >= 1;
        lemma_cop1(0); assert(n * 1 == d * 0); lemma_rat_unique(n, d, 0, 1);
    }
}
pub proof fn lemma_rat_zero2(n: int, d: int)
    ensures rsame(n, d, 0, 1) <==> n == 0
{ assert(d * 0 == 0); assert(n * 1 == n); }
pub proof fn lemma_pw_mono_pos(b: int, e: nat) requires b >= 1 ensures pw(b, e) >= 1 decreases e
{ if e > 0 { lemma_pw_mono_pos(b, (e - 1) as nat); lemma_mul_pos(b, pw(b, (e - 1) as nat)); } }
pub proof fn lemma_cop_pows(n: int, d: int, e: nat) requires coprime(n, d) ensures coprime(pw(n, e), pw(d, e))
{
    lemma_cop_sym(n, d); lemma_pw_coprime(d, n, e); lemma_cop_sym(d, pw(n, e)); lemma_pw_coprime(pw(n, e), d, e);
}
pub proof fn lemma_cop_divs(p: int, q: int, n: int, d: int) requires coprime(n, d), divides(p, n), divides(q, d) ensures coprime(p, q)
{
    lemma_bz(n, d); lemma_bz(p, q);
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * n + y * d);
    let k = choose|k: int| n == #[trigger] (p * k); let l = choose|l: int| d == #[trigger] (q * l);
    assert(x * (p * k) == (x * k) * p) by(nonlinear_arith); assert(y * (q * l) == (y * l) * q) by(nonlinear_arith);
    assert(1 == (x * k) * p + (y * l) * q);
}
pub open spec fn xexp(n: int, d: int, ee: nat, rn: int, rd: int, xn: int, xd: int, e: nat) -> bool {
    &&& d >= 1 && coprime(n, d) && fits(pw(n, ee)) && fits(pw(d, ee))
    &&& rn * pw(xn, e) == pw(n, ee) && rd * pw(xd, e) == pw(d, ee)
    &&& xd >= 1 && rd >= 1
    &&& ee >= 1
    &&& (n == 0 ==> ((xn == 0 && (rn == 0 || rn == 1)) || e == 0)) && (n != 0 ==> xn != 0)
}
pub proof fn lemma_xexp_start(n: int, d: int, e: int, xn: int, xd: int)
    ensures (d >= 1 && coprime(n, d) && e != 0 && fits(pw(xnum(n, d, e), eabs(e))) && fits(pw(xden(n, d, e), eabs(e)))
        && (e > 0 ==> (xn == n && xd == d))
        && (e < 0 ==> (n != 0 && xd >= 1 && coprime(xn, xd) && rsame(xn, xd, 1 * d, 1 * n))))
        ==> xexp(xnum(n, d, e), xden(n, d, e), eabs(e), 1, 1, xn, xd, eabs(e))
{
    if d >= 1 && coprime(n, d) && e < 0 && n != 0 && xd >= 1 && coprime(xn, xd) && rsame(xn, xd, 1 * d, 1 * n) {
        let (a, b) = (xnum(n, d, e), xden(n, d, e));
        lemma_cop_sym(n, d);
        lemma_cop_neg(d, n); lemma_cop_sym(-d, n); lemma_cop_neg(n, -d); lemma_cop_sym(-n, -d);
        assert(coprime(a, b));
        if n < 0 { assert(xn * (-n) == xd * (-d)) by(nonlinear_arith) requires xn * n == xd * d; }
        assert(rsame(xn, xd, a, b));
        lemma_rat_unique(xn, xd, a, b);
    }
    lemma_pow1(pw(xn, eabs(e))); lemma_pow1(pw(xd, eabs(e)));
}
pub proof fn lemma_pow1(x: int) ensures 1 * x == x {}
pub proof fn lemma_xexp_step(n: int, d: int, ee: nat, rn: int, rd: int, xn: int, xd: int, e: nat)
    requires xexp(n, d, ee, rn, rd, xn, xd, e), e >= 1
    ensures e % 2 == 1 ==> (fits(rn * xn) && fits(rd * xd) && coprime(rn * xn, rd * xd) && rd * xd >= 1 && xexp(n, d, ee, rn * xn, rd * xd, xn * xn, xd * xd, e / 2)),
        e % 2 == 0 ==> xexp(n, d, ee, rn, rd, xn * xn, xd * xd, e / 2),
        e / 2 >= 1 ==> (fits(xn * xn) && fits(xd * xd) && coprime(xn * xn, xd * xd) && xd * xd >= 1),
        e / 2 == 0 ==> (e % 2 == 1 && xexp(n, d, ee, rn * xn, rd * xd, xn, xd, 0)),
{
    let (nn, dd) = (pw(n, ee), pw(d, ee)); let k = (e / 2) as nat;
    lemma_pw_abs(n, ee); lemma_pw_mono_pos(d, ee);
    lemma_pow_step(n, nn, rn, xn, e);
    lemma_pow_step(1, dd, rd, xd, e);
    lemma_mul_pos(xd, xd); lemma_mul_pos(rd, xd);
    lemma_cop_pows(n, d, ee);
    let (p, q) = (pw(xn * xn, k), pw(xd * xd, k));
    if e % 2 == 1 {
        assert(divides(rn * xn, nn)); assert(divides(rd * xd, dd));
        lemma_cop_divs(rn * xn, rd * xd, nn, dd);
    }
    if k >= 1 {
        let (p1, q1) = (pw(xn * xn, (k - 1) as nat), pw(xd * xd, (k - 1) as nat));
        assert(p == (xn * xn) * p1 && q == (xd * xd) * q1);
        let (u, v) = if e % 2 == 1 { (rn * xn, rd * xd) } else { (rn, rd) };
        assert(u * ((xn * xn) * p1) == (xn * xn) * (u * p1)) by(nonlinear_arith);
        assert(v * ((xd * xd) * q1) == (xd * xd) * (v * q1)) by(nonlinear_arith);
        assert(divides(xn * xn, nn)); assert(divides(xd * xd, dd));
        lemma_cop_divs(xn * xn, xd * xd, nn, dd);
    } else {
        assert(e == 1);
        assert(pw(xn, 0) == 1 && pw(xd, 0) == 1);
        assert(p == 1 && q == 1);
    }
}
pub proof fn lemma_xexp_end(n: int, d: int, ee: nat, rn: int, rd: int, xn: int, xd: int)
    ensures xexp(n, d, ee, rn, rd, xn, xd, 0) ==> (rn == pw(n, ee) && rd == pw(d, ee))
{ assert(pw(xn, 0) == 1 && pw(xd, 0) == 1); assert(rn * 1 == rn); assert(rd * 1 == rd); }
pub open spec fn rlow(rn: int, rd: int, n: int, d: int) -> bool { (d >= 1 && coprime(n, d)) ==> (rn == n && rd == d) }
pub proof fn lemma_rlow(rn: int, rd: int, n: int, d: int)
    ensures (rd >= 1 && coprime(rn, rd) && rsame(rn, rd, n, d)) ==> rlow(rn, rd, n, d)
{ if rd >= 1 && coprime(rn, rd) && d >= 1 && coprime(n, d) { lemma_rat_unique(rn, rd, n, d); } }
