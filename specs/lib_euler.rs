// ---- congruences, units and Euler's theorem -----------------------------------
pub open spec fn cong(a: int, b: int, m: int) -> bool { divides(m, a - b) }
pub proof fn lemma_divides_mod(d: int, a: int) requires d >= 1 ensures divides(d, a) <==> a % d == 0
{
    lemma_fundamental_div_mod(a, d);
    if a % d == 0 { assert(a == d * (a / d)); }
    if divides(d, a) { let k = choose|k: int| a == #[trigger] (d * k); lemma_mod_multiples_basic(k, d); assert(k * d == d * k) by(nonlinear_arith); }
}
pub proof fn lemma_cong_mod(a: int, b: int, m: int) requires m >= 1 ensures cong(a, b, m) <==> a % m == b % m, cong(a, a % m, m), cong(a % m, a, m), cong(a, a, m)
{
    lemma_fundamental_div_mod(a, m); lemma_fundamental_div_mod(b, m); lemma_mod_bound(a, m); lemma_mod_bound(b, m);
    assert(a - a % m == m * (a / m)); assert(cong(a, a % m, m));
    assert(a % m - a == m * (-(a / m))) by(nonlinear_arith) requires a - a % m == m * (a / m);
    assert(a - a == m * 0);
    if a % m == b % m { assert(a - b == m * (a / m - b / m)) by(nonlinear_arith) requires a == m * (a / m) + a % m, b == m * (b / m) + b % m, a % m == b % m; }
    if cong(a, b, m) {
        let k = choose|k: int| a - b == #[trigger] (m * k);
        assert(a == k * m + b) by(nonlinear_arith) requires a - b == m * k;
        lemma_mod_multiples_vanish(k, b, m);
        assert(m * k + b == k * m + b) by(nonlinear_arith);
    }
}
pub proof fn lemma_cong_sym(a: int, b: int, m: int) requires cong(a, b, m) ensures cong(b, a, m)
{ let k = choose|k: int| a - b == #[trigger] (m * k); assert(b - a == m * (-k)) by(nonlinear_arith) requires a - b == m * k; }
pub proof fn lemma_cong_trans(a: int, b: int, c: int, m: int) requires cong(a, b, m), cong(b, c, m) ensures cong(a, c, m)
{ let k = choose|k: int| a - b == #[trigger] (m * k); let l = choose|l: int| b - c == #[trigger] (m * l); assert(a - c == m * (k + l)) by(nonlinear_arith) requires a - b == m * k, b - c == m * l; }
pub proof fn lemma_cong_mul(a: int, b: int, c: int, d: int, m: int) requires cong(a, b, m), cong(c, d, m) ensures cong(a * c, b * d, m)
{
    let k = choose|k: int| a - b == #[trigger] (m * k); let l = choose|l: int| c - d == #[trigger] (m * l);
    // ac - bd = (a-b)c + b(c-d)
    assert(a * c - b * d == (a - b) * c + b * (c - d)) by(nonlinear_arith);
    assert((m * k) * c == m * (k * c)) by(nonlinear_arith);
    assert(b * (m * l) == m * (b * l)) by(nonlinear_arith);
    assert(m * (k * c) + m * (b * l) == m * (k * c + b * l)) by(nonlinear_arith);
    assert(a * c - b * d == m * (k * c + b * l));
}
pub proof fn lemma_cong_add(a: int, b: int, c: int, d: int, m: int) requires cong(a, b, m), cong(c, d, m) ensures cong(a + c, b + d, m), cong(a - c, b - d, m)
{
    let k = choose|k: int| a - b == #[trigger] (m * k); let l = choose|l: int| c - d == #[trigger] (m * l);
    assert((a + c) - (b + d) == m * (k + l)) by(nonlinear_arith) requires a - b == m * k, c - d == m * l;
    assert((a - c) - (b - d) == m * (k - l)) by(nonlinear_arith) requires a - b == m * k, c - d == m * l;
}
pub proof fn lemma_cong_small(a: int, b: int, m: int) requires cong(a, b, m), 0 <= a < m, 0 <= b < m ensures a == b
{ lemma_cong_mod(a, b, m); lemma_small_mod(a as nat, m as nat); lemma_small_mod(b as nat, m as nat); }
pub proof fn lemma_mulmod(a: int, b: int, m: int) requires m >= 1 ensures ((a % m) * b) % m == (a * b) % m, (a * (b % m)) % m == (a * b) % m, (a % m) % m == a % m
{
    lemma_cong_mod(a, a % m, m); lemma_cong_mod(b, b % m, m); lemma_cong_mod(a, a, m); lemma_cong_mod(b, b, m);
    lemma_cong_mul(a % m, a, b, b, m); lemma_cong_mul(a, a, b % m, b, m);
    lemma_cong_mod((a % m) * b, a * b, m); lemma_cong_mod(a * (b % m), a * b, m);
}
// Bezout form of coprimality
pub open spec fn bz(a: int, b: int) -> bool { exists|x: int, y: int| 1 == #[trigger] (x * a + y * b) }
pub proof fn lemma_bz(a: int, b: int) ensures coprime(a, b) <==> bz(a, b)
{
    if coprime(a, b) { lemma_bezout(a, b, 1); }
    if bz(a, b) {
        let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * a + y * b);
        lemma_div_refl(a); lemma_div_refl(b);
        assert(cdiv(1, a, b));
        assert forall|d: int| #[trigger] cdiv(d, a, b) implies divides(d, 1) by {
            let k = choose|k: int| a == #[trigger] (d * k); let l = choose|l: int| b == #[trigger] (d * l);
            assert(x * (d * k) == d * (x * k)) by(nonlinear_arith); assert(y * (d * l) == d * (y * l)) by(nonlinear_arith);
            assert(d * (x * k) + d * (y * l) == d * (x * k + y * l)) by(nonlinear_arith);
            assert(1 == d * (x * k + y * l));
        }
    }
}
pub proof fn lemma_coprime_mul(m: int, a: int, b: int) requires coprime(m, a), coprime(m, b) ensures coprime(m, a * b)
{
    lemma_bz(m, a); lemma_bz(m, b); lemma_bz(m, a * b);
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * m + y * a);
    let (u, v) = choose|u: int, v: int| 1 == #[trigger] (u * m + v * b);
    // 1 = (xm + ya)(um + vb) = m(x(um + vb) + y a u) + yv ab
    let (cm, dm) = (u * m, v * b); let sm = cm + dm; let bm = y * a;
    let p = x * sm + bm * u; let q = y * v;
    assert((x * m + bm) * sm == (x * m) * sm + bm * sm) by(nonlinear_arith);
    assert((x * m) * sm == (x * sm) * m) by(nonlinear_arith);
    assert(bm * (cm + dm) == bm * cm + bm * dm) by(nonlinear_arith);
    assert(bm * (u * m) == (bm * u) * m) by(nonlinear_arith);
    assert((y * a) * (v * b) == (y * v) * (a * b)) by(nonlinear_arith);
    let (p1, p2_) = (x * sm, bm * u);
    assert((p1 + p2_) * m == p1 * m + p2_ * m) by(nonlinear_arith);
    assert(1 * 1 == 1); assert(1 == p * m + q * (a * b));
}
pub proof fn lemma_coprime_cong(m: int, a: int, b: int) requires coprime(m, a), cong(a, b, m) ensures coprime(m, b)
{
    lemma_bz(m, a); lemma_bz(m, b);
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * m + y * a);
    let k = choose|k: int| a - b == #[trigger] (m * k);
    let p = x + y * k;
    assert(a == b + m * k);
    assert(y * (b + m * k) == y * b + (y * k) * m) by(nonlinear_arith);
    assert(p * m == x * m + (y * k) * m) by(nonlinear_arith) requires p == x + y * k;
    assert(1 == p * m + y * b);
}
// Gauss: m | a*z and gcd(m, a) = 1 give m | z
pub proof fn lemma_gauss(m: int, a: int, z: int) requires coprime(m, a), divides(m, a * z) ensures divides(m, z)
{
    lemma_bz(m, a);
    let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * m + y * a);
    let k = choose|k: int| a * z == #[trigger] (m * k);
    assert((x * m + y * a) * z == m * (x * z) + y * (a * z)) by(nonlinear_arith);
    assert(y * (m * k) == m * (y * k)) by(nonlinear_arith);
    assert(m * (x * z) + m * (y * k) == m * (x * z + y * k)) by(nonlinear_arith);
    assert(1 * z == z); assert(z == m * (x * z + y * k));
}
// ---- finite products ----
pub open spec fn sprod(s: Set<int>) -> int decreases s.len() { if s.finite() && s.len() > 0 { let x = s.choose(); if s.contains(x) { x * sprod(s.remove(x)) } else { 1 } } else { 1 } }
pub proof fn lemma_sprod_remove(s: Set<int>, x: int)
    requires s.finite(), s.contains(x)
    ensures sprod(s) == x * sprod(s.remove(x))
    decreases s.len()
{
    let y = s.choose();
    assert(s.len() > 0) by { if s.len() == 0 { vstd::set_lib::lemma_set_empty_equivalency_len(s); } }
    assert(s.contains(y));
    if y != x {
        let sx = s.remove(x); let sy = s.remove(y);
        lemma_sprod_remove(sy, x);
        lemma_sprod_remove(sx, y);
        assert(sy.remove(x) =~= sx.remove(y));
        let t = sprod(sx.remove(y));
        assert(y * (x * t) == x * (y * t)) by(nonlinear_arith);
    }
}
pub open spec fn unit(m: int, x: int) -> bool { 0 < x < m && coprime(m, x) }
pub open spec fn units_upto(m: int, k: int) -> Set<int> { vstd::set_lib::set_int_range(1, k).filter(|x: int| coprime(m, x)) }
pub proof fn lemma_units_count(m: int, k: int)
    requires k >= 1
    ensures units_upto(m, k).finite(), units_upto(m, k).len() == cop_count(m, k)
    decreases k
{
    vstd::set_lib::lemma_int_range(1, k);
    if k == 1 { assert(units_upto(m, 1) =~= Set::empty()); }
    else {
        lemma_units_count(m, k - 1);
        let a = units_upto(m, k - 1); let b = units_upto(m, k);
        if coprime(m, k - 1) { assert(b =~= a.insert(k - 1)); } else { assert(b =~= a); }
    }
}
pub open spec fn amul(a: int, m: int, s: Set<int>) -> Set<int> { s.map(|x: int| (a * x) % m) }
pub proof fn lemma_amul_inj(a: int, m: int, x: int, y: int)
    requires m >= 2, coprime(m, a), 0 <= x < m, 0 <= y < m, (a * x) % m == (a * y) % m
    ensures x == y
{
    lemma_cong_mod(a * x, a * y, m);
    assert(a * x - a * y == a * (x - y)) by(nonlinear_arith);
    lemma_gauss(m, a, x - y);
    lemma_cong_small(x, y, m);
}
pub proof fn lemma_amul_prod(a: int, m: int, s: Set<int>)
    requires m >= 2, coprime(m, a), s.finite(), forall|x: int| s.contains(x) ==> 0 <= x < m
    ensures amul(a, m, s).finite(), amul(a, m, s).len() == s.len(), cong(sprod(amul(a, m, s)), pw(a, s.len()) * sprod(s), m)
    decreases s.len()
{
    if s.len() == 0 {
        vstd::set_lib::lemma_set_empty_equivalency_len(s);
        assert(s =~= Set::empty());
        assert(amul(a, m, s) =~= Set::empty());
        assert(sprod(s) == 1);
        lemma_cong_mod(1, 1, m);
    } else {
        let x = s.choose();
        vstd::set_lib::lemma_set_empty_equivalency_len(s);
        assert(s.contains(x));
        let t = s.remove(x); let y = (a * x) % m;
        lemma_amul_prod(a, m, t);
        let at = amul(a, m, t); let as_ = amul(a, m, s);
        if at.contains(y) { let z = choose|z: int| t.contains(z) && y == (a * z) % m; lemma_amul_inj(a, m, x, z); }
        assert(as_ =~= at.insert(y)) by {
            assert forall|v: int| as_.contains(v) implies at.insert(y).contains(v) by { let z = choose|z: int| s.contains(z) && v == (a * z) % m; if z != x { assert(t.contains(z)); } }
            assert forall|v: int| at.insert(y).contains(v) implies as_.contains(v) by { if v == y { assert(s.contains(x)); } else { let z = choose|z: int| t.contains(z) && v == (a * z) % m; assert(s.contains(z)); } }
        }
        lemma_sprod_remove(as_, y);
        assert(as_.remove(y) =~= at);
        lemma_sprod_remove(s, x);
        lemma_cong_mod(a * x, y, m);
        lemma_cong_mul(y, a * x, sprod(at), pw(a, t.len()) * sprod(t), m);
        assert(pw(a, s.len()) == a * pw(a, t.len()));
        let (p, q) = (pw(a, t.len()), sprod(t));
        assert((a * x) * (p * q) == (a * p) * (x * q)) by(nonlinear_arith);
    }
}
pub proof fn lemma_sprod_coprime(m: int, s: Set<int>)
    requires s.finite(), forall|x: int| s.contains(x) ==> coprime(m, x)
    ensures coprime(m, sprod(s))
    decreases s.len()
{
    if s.len() == 0 { assert(sprod(s) == 1); lemma_bz(m, 1); assert(1 == 0 * m + 1 * 1); }
    else { let x = s.choose(); vstd::set_lib::lemma_set_empty_equivalency_len(s); assert(s.contains(x)); lemma_sprod_coprime(m, s.remove(x)); lemma_coprime_mul(m, x, sprod(s.remove(x))); }
}
pub proof fn lemma_euler(a: int, m: int)
    requires m >= 2, coprime(m, a)
    ensures cong(pw(a, totient(m) as nat), 1, m), totient(m) >= 1
{
    let u = units_upto(m, m);
    lemma_units_count(m, m);
    let au = amul(a, m, u);
    lemma_amul_prod(a, m, u);
    assert forall|v: int| au.contains(v) implies u.contains(v) by {
        let z = choose|z: int| u.contains(z) && v == (a * z) % m;
        lemma_mod_bound(a * z, m);
        lemma_coprime_mul(m, a, z);
        lemma_cong_mod(a * z, v, m);
        lemma_coprime_cong(m, a * z, v);
        if v == 0 { lemma_bz(m, 0); let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * m + y * 0); assert(x * m != 1) by(nonlinear_arith) requires m >= 2; assert(y * 0 == 0); }
    }
    assert(au.subset_of(u));
    vstd::set_lib::lemma_subset_equality(au, u);
    assert(au =~= u);
    lemma_sprod_coprime(m, u);
    let p = pw(a, u.len()); let s = sprod(u);
    lemma_cong_sym(s, p * s, m);
    assert(p * s - s == s * (p - 1)) by(nonlinear_arith);
    lemma_gauss(m, s, p - 1);
    // 1 is a unit
    lemma_bz(m, 1); assert(1 == 0 * m + 1 * 1);
    assert(u.contains(1));
    vstd::set_lib::lemma_set_empty_equivalency_len(u);
}
// a * x = 1 (mod m) exactly when x inverts the unit a
pub open spec fn is_inv(a: int, x: int, m: int) -> bool { (a * x) % m == 1 }
pub proof fn lemma_inv_unit(a: int, x: int, m: int) requires m >= 2, is_inv(a, x, m) ensures coprime(m, a), coprime(m, x)
{
    lemma_fundamental_div_mod(a * x, m);
    let q = (a * x) / m;
    lemma_bz(m, a); lemma_bz(m, x);
    assert(1 == (-q) * m + x * a) by(nonlinear_arith) requires a * x == m * q + 1;
    assert(1 == (-q) * m + a * x) by(nonlinear_arith) requires a * x == m * q + 1;
}
pub proof fn lemma_euler_inv(a: int, m: int)
    requires m >= 2, coprime(m, a)
    ensures is_inv(a, pw(a, (totient(m) - 1) as nat) % m, m)
{
    lemma_euler(a, m);
    let k = (totient(m) - 1) as nat;
    assert(pw(a, k + 1) == a * pw(a, k));
    lemma_mulmod(a, pw(a, k), m);
    lemma_cong_mod(a * pw(a, k), 1, m);
    lemma_small_mod(1, m as nat);
}
pub proof fn lemma_pw_coprime(m: int, a: int, e: nat) requires coprime(m, a) ensures coprime(m, pw(a, e)) decreases e
{ if e == 0 { lemma_bz(m, 1); assert(1 == 0 * m + 1 * 1); } else { lemma_pw_coprime(m, a, (e - 1) as nat); lemma_coprime_mul(m, a, pw(a, (e - 1) as nat)); } }
// one step of modular square-and-multiply
pub proof fn lemma_modpow_step(v: int, rv: int, xp: int, e: nat, m: int)
    requires m >= 1, cong(rv * pw(xp, e), v, m), e >= 1
    ensures e % 2 == 1 ==> cong(((rv * xp) % m) * pw((xp * xp) % m, e / 2), v, m),
        e % 2 == 0 ==> cong(rv * pw((xp * xp) % m, e / 2), v, m),
{
    let k = (e / 2) as nat; let s = (xp * xp) % m;
    lemma_pw_sq(xp, k);
    lemma_pw_cong(s, xp * xp, k, m);
    lemma_cong_mod(xp * xp, s, m); lemma_cong_mod(rv * xp, rv * xp, m); lemma_cong_mod(rv, rv, m);
    lemma_pw_cong(s, xp * xp, k, m);
    if e % 2 == 1 {
        assert(e == 2 * k + 1);
        lemma_cong_mul((rv * xp) % m, rv * xp, pw(s, k), pw(xp * xp, k), m);
        let p = pw(xp * xp, k);
        assert((rv * xp) * p == rv * (xp * p)) by(nonlinear_arith);
        lemma_cong_trans(((rv * xp) % m) * pw(s, k), rv * pw(xp, e), v, m);
    } else {
        assert(e == 2 * k);
        lemma_cong_mul(rv, rv, pw(s, k), pw(xp * xp, k), m);
        lemma_cong_trans(rv * pw(s, k), rv * pw(xp, e), v, m);
    }
}
pub proof fn lemma_pw_cong(a: int, b: int, e: nat, m: int)
    requires m >= 1, a == b % m
    ensures cong(pw(a, e), pw(b, e), m)
    decreases e
{
    lemma_cong_mod(b, b, m); lemma_cong_mod(1, 1, m);
    if e > 0 { lemma_pw_cong(a, b, (e - 1) as nat, m); lemma_cong_mul(a, b, pw(a, (e - 1) as nat), pw(b, (e - 1) as nat), m); }
}
// (inverse of a)^e inverts a^e
pub proof fn lemma_inv_pow(a: int, x: int, e: nat, m: int)
    requires m >= 2, is_inv(a, x, m)
    ensures (pw(a, e) * pw(x, e)) % m == 1
    decreases e
{
    lemma_small_mod(1, m as nat);
    if e > 0 {
        let f = (e - 1) as nat;
        lemma_inv_pow(a, x, f, m);
        let (p, q) = (pw(a, f), pw(x, f));
        assert((a * p) * (x * q) == (a * x) * (p * q)) by(nonlinear_arith);
        lemma_mulmod(a * x, p * q, m);
        assert(1 * (p * q) == p * q);
    }
}
pub proof fn lemma_trem_pos(a: int, m: int) requires m >= 1 ensures a >= 0 ==> trem(a, m) == a % m, a < 0 ==> (trem(a, m) == 0 && a % m == 0) || trem(a, m) + m == a % m, -m < trem(a, m) < m
{
    lemma_trem(a, m);
    lemma_mod_bound(a, m); lemma_fundamental_div_mod(a, m);
    if a >= 0 { assert(tdiv(a, m) == a / m); } else {
        let b = -a; lemma_fundamental_div_mod(b, m); lemma_mod_bound(b, m);
        let q = b / m; let r = b % m;
        assert(tdiv(a, m) == -q); 
        assert(m * (-q) == -(m * q)) by(nonlinear_arith);
        assert(trem(a, m) == -r);
        // a = -q m - r
        if r == 0 { assert(a == (-q) * m + 0) by(nonlinear_arith) requires b == m * q, a == -b; lemma_mod_multiples_basic(-q, m); }
        else { let w = -q - 1; assert(a == w * m + (m - r)) by(nonlinear_arith) requires b == m * q + r, a == -b, w == -q - 1; lemma_mod_multiples_vanish(w, m - r, m); lemma_small_mod((m - r) as nat, m as nat); assert(m * w + (m - r) == w * m + (m - r)) by(nonlinear_arith); }
    }
}
// quotient characterised: r * b = a (mod m), unique for a unit b
pub proof fn lemma_quot(a: int, b: int, x: int, m: int)
    requires m >= 2, is_inv(b, x, m), 0 <= a < m
    ensures (((a * x) % m) * b) % m == a
{
    lemma_mulmod(a * x, b, m);
    assert((a * x) * b == a * (b * x)) by(nonlinear_arith);
    lemma_mulmod(a, b * x, m);
    assert(a * 1 == a);
    lemma_small_mod(a as nat, m as nat);
}
