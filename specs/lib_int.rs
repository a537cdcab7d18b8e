// ---- divisibility and gcd over the integers --------------------------------
pub open spec fn divides(d: int, a: int) -> bool { exists|k: int| a == #[trigger] (d * k) }
pub open spec fn cdiv(d: int, a: int, b: int) -> bool { divides(d, a) && divides(d, b) }
// g is a greatest common divisor of a and b in the divisibility order
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool {
    cdiv(g, a, b) && forall|d: int| #[trigger] cdiv(d, a, b) ==> divides(d, g)
}
pub proof fn lemma_div_neg(d: int, a: int)
    ensures divides(d, a) <==> divides(d, -a), divides(d, a) <==> divides(-d, a)
{
    if divides(d, a) { let k = choose|k: int| a == #[trigger] (d * k); assert(-a == d * (-k)) by(nonlinear_arith) requires a == d * k; assert(a == (-d) * (-k)) by(nonlinear_arith) requires a == d * k; }
    if divides(d, -a) { let k = choose|k: int| -a == #[trigger] (d * k); assert(a == d * (-k)) by(nonlinear_arith) requires -a == d * k; }
    if divides(-d, a) { let k = choose|k: int| a == #[trigger] ((-d) * k); assert(a == d * (-k)) by(nonlinear_arith) requires a == (-d) * k; }
}
pub proof fn lemma_div_lin(d: int, a: int, b: int, x: int)
    requires divides(d, a), divides(d, b)
    ensures divides(d, a + x * b), divides(d, a - x * b)
{
    let k = choose|k: int| a == #[trigger] (d * k); let l = choose|l: int| b == #[trigger] (d * l);
    assert(a + x * b == d * (k + x * l)) by(nonlinear_arith) requires a == d * k, b == d * l;
    assert(a - x * b == d * (k - x * l)) by(nonlinear_arith) requires a == d * k, b == d * l;
}
pub proof fn lemma_div_refl(a: int) ensures divides(a, a), divides(1, a), divides(a, 0)
{
    assert(a == a * 1); assert(a == 1 * a); assert(0 == a * 0);
}
pub proof fn lemma_gcd_zero(a: int, b: int)
    ensures a == 0 ==> is_gcd(b, a, b), b == 0 ==> is_gcd(a, a, b)
{
    lemma_div_refl(a); lemma_div_refl(b);
}
pub proof fn lemma_cdiv_abs(a: int, b: int, a0: int, b0: int)
    requires a == a0 || a == -a0, b == b0 || b == -b0
    ensures forall|d: int| #[trigger] cdiv(d, a, b) <==> cdiv(d, a0, b0)
{
    assert forall|d: int| #[trigger] cdiv(d, a, b) <==> cdiv(d, a0, b0) by { lemma_div_neg(d, a); lemma_div_neg(d, b); }
}
pub proof fn lemma_euclid_step(a: int, b: int)
    requires b != 0
    ensures forall|d: int| #[trigger] cdiv(d, b, trem(a, b)) <==> cdiv(d, a, b), trem(a, b) == 0 ==> divides(b, a),
{
    let q = tdiv(a, b); let r = trem(a, b);
    lemma_trem(a, b);
    assert(q * b == b * q) by(nonlinear_arith);
    assert forall|d: int| #[trigger] cdiv(d, b, r) <==> cdiv(d, a, b) by {
        if cdiv(d, b, r) { lemma_div_lin(d, r, b, q); }
        if cdiv(d, a, b) { lemma_div_lin(d, a, b, q); }
    }
    if r == 0 { assert(a == b * q); }
}
pub proof fn lemma_gcd_from_cdiv(g: int, a: int, b: int, a0: int, b0: int)
    requires b == g, b != 0, trem(a, b) == 0, forall|d: int| #[trigger] cdiv(d, a, b) <==> cdiv(d, a0, b0)
    ensures is_gcd(g, a0, b0)
{
    lemma_euclid_step(a, b); lemma_div_refl(b);
    assert(cdiv(g, a, b));
    assert forall|d: int| #[trigger] cdiv(d, a0, b0) implies divides(d, g) by { assert(cdiv(d, a, b)); }
}
// ---- integer powers ----------------------------------------------------------
pub open spec fn pw(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * pw(b, (e - 1) as nat) } }
pub proof fn lemma_pw_add(b: int, i: nat, j: nat)
    ensures pw(b, i + j) == pw(b, i) * pw(b, j)
    decreases i
{
    if i == 0 { assert(pw(b, 0) == 1); } else {
        lemma_pw_add(b, (i - 1) as nat, j);
        assert(b * (pw(b, (i - 1) as nat) * pw(b, j)) == (b * pw(b, (i - 1) as nat)) * pw(b, j)) by(nonlinear_arith);
    }
}
pub proof fn lemma_pw_sq(b: int, k: nat)
    ensures pw(b * b, k) == pw(b, 2 * k), pw(b, 2 * k + 1) == b * pw(b * b, k)
    decreases k
{
    if k > 0 {
        lemma_pw_sq(b, (k - 1) as nat);
        let j = (2 * k - 2) as nat;
        assert(pw(b, (j + 1) as nat) == b * pw(b, j));
        assert(pw(b, (j + 2) as nat) == b * pw(b, (j + 1) as nat));
        assert(b * (b * pw(b, j)) == (b * b) * pw(b, j)) by(nonlinear_arith);
        assert(2 * k == (j + 2) as nat); assert(2 * ((k - 1) as nat) == j); assert(pw(b * b, k) == (b * b) * pw(b * b, (k - 1) as nat));
    } else { assert(pw(b, 0) == 1 && pw(b * b, 0) == 1); }
    assert(pw(b, 2 * k + 1) == b * pw(b, 2 * k));
}
pub proof fn lemma_pw_abs(b: int, e: nat)
    ensures b != 0 ==> pw(b, e) != 0, (b != 0 && e >= 1) ==> abs_(b) <= abs_(pw(b, e)), e >= 1 ==> pw(0, e) == 0, pw(b, 1) == b
    decreases e
{
    assert(pw(b, 1) == b * pw(b, 0));
    if e >= 1 {
        assert(pw(0, e) == 0 * pw(0, (e - 1) as nat));
        lemma_pw_abs(b, (e - 1) as nat);
        let p = pw(b, (e - 1) as nat);
        if b != 0 {
            assert(b * p != 0) by(nonlinear_arith) requires b != 0, p != 0;
            assert(abs_(b * p) >= abs_(b)) by(nonlinear_arith) requires b != 0, p != 0;
        }
    }
}
// one step of square-and-multiply, with the magnitude facts that exclude overflow
pub proof fn lemma_pow_step(b0: int, v: int, rv: int, b2: int, e: nat)
    requires rv * pw(b2, e) == v, e >= 1, -0x8000_0000 < v < 0x8000_0000,
        b0 == 0 ==> (b2 == 0 && (rv == 0 || rv == 1)), b0 != 0 ==> (b2 != 0 && v != 0)
    ensures
        e % 2 == 1 ==> (-0x8000_0000 < rv * b2 < 0x8000_0000 && (rv * b2) * pw(b2 * b2, e / 2) == v),
        e % 2 == 0 ==> rv * pw(b2 * b2, e / 2) == v,
        e / 2 >= 1 ==> (-0x8000_0000 < b2 * b2 < 0x8000_0000),
        b0 == 0 ==> rv * b2 == 0 && b2 * b2 == 0, b0 != 0 ==> b2 * b2 != 0,
        e / 2 == 0 ==> pw(b2 * b2, e / 2) == 1,
{
    let k = (e / 2) as nat; let s = b2 * b2; let p = pw(s, k);
    lemma_pw_sq(b2, k);
    if b0 != 0 { assert(s != 0) by(nonlinear_arith) requires b2 != 0, s == b2 * b2; }
    lemma_pw_abs(s, k); lemma_pw_abs(b2, e);
    if e % 2 == 1 {
        assert(e == 2 * k + 1);
        assert((rv * b2) * p == rv * (b2 * p)) by(nonlinear_arith);
        if b0 != 0 {
            assert(abs_(rv * b2) <= abs_((rv * b2) * p)) by(nonlinear_arith) requires p != 0;
        } else { assert(rv * b2 == 0) by(nonlinear_arith) requires b2 == 0; }
    } else { assert(e == 2 * k); }
    if b0 == 0 { assert(s == 0) by(nonlinear_arith) requires b2 == 0, s == b2 * b2; assert(rv * b2 == 0) by(nonlinear_arith) requires b2 == 0; }
    if k >= 1 && b0 != 0 {
        let q = if e % 2 == 1 { b2 * p } else { p };
        assert(q == pw(b2, e));
        assert(abs_(s) <= abs_(p));
        assert(abs_(p) <= abs_(q)) by(nonlinear_arith) requires q == p || q == b2 * p, b2 != 0;
        assert(rv != 0) by(nonlinear_arith) requires rv * q == v, v != 0;
        assert(abs_(q) <= abs_(v)) by(nonlinear_arith) requires rv * q == v, rv != 0;
    }
}
// ---- totient -------------------------------------------------------------------
pub open spec fn coprime(a: int, b: int) -> bool { is_gcd(1, a, b) }
// number of i in 1..k-1 coprime to n
pub open spec fn cop_count(n: int, k: int) -> int decreases k {
    if k <= 1 { 0 } else { cop_count(n, k - 1) + (if coprime(n, k - 1) { 1int } else { 0 }) }
}
pub open spec fn totient(n: int) -> int { cop_count(n, n) }
pub proof fn lemma_cop_bound(n: int, k: int) ensures 0 <= cop_count(n, k), k >= 1 ==> cop_count(n, k) <= k - 1 decreases k
{ if k > 1 { lemma_cop_bound(n, k - 1); } }
pub proof fn lemma_gcd_unique(g: int, h: int, a: int, b: int)
    requires is_gcd(g, a, b), is_gcd(h, a, b)
    ensures g == h || g == -h
{
    assert(divides(g, h) && divides(h, g));
    let k = choose|k: int| h == #[trigger] (g * k); let l = choose|l: int| g == #[trigger] (h * l);
    if g == 0 { assert(h == 0) by(nonlinear_arith) requires h == g * k, g == 0; }
    else {
        assert(g == (g * k) * l);
        assert((g * k) * l == g * (k * l)) by(nonlinear_arith);
        assert(k * l == 1) by(nonlinear_arith) requires g == g * (k * l), g != 0;
        assert(k == 1 || k == -1) by(nonlinear_arith) requires k * l == 1;
        assert(h == g || h == -g) by(nonlinear_arith) requires h == g * k, k == 1 || k == -1;
    }
}
// ---- integer square root -------------------------------------------------------
pub open spec fn is_fsqrt(r: int, n: int) -> bool { r >= 0 && r * r <= n && n < (r + 1) * (r + 1) }
pub open spec fn is_csqrt(r: int, n: int) -> bool { r >= 0 && n <= r * r && (r >= 1 ==> (r - 1) * (r - 1) < n) }
pub open spec fn p4(n: nat) -> nat { p2(2 * n) }
pub proof fn lemma_p4(n: nat) ensures p4(n + 1) == 4 * p4(n), p4(n) >= 1, p4(0) == 1, p4(n) == p2(n) * p2(n), p2(n) >= 1 decreases n
{
    reveal_with_fuel(p2, 3);
    if n > 0 {
        lemma_p4((n - 1) as nat);
        let x = p2((n - 1) as nat);
        assert(p4(n) == 4 * p4((n - 1) as nat));
        assert((2 * x) * (2 * x) == 4 * (x * x)) by(nonlinear_arith);
    }
}
pub proof fn lemma_p2_vals()
    ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(4) == 16, p2(6) == 64, p2(8) == 256, p2(15) == 32768, p2(16) == 65536, p2(30) == 0x4000_0000, p2(31) == 0x8000_0000, p2(32) == 0x1_0000_0000,
        p2(63) == 0x8000_0000_0000_0000, p2(64) == 0x1_0000_0000_0000_0000
{
    assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(4) == 16 && p2(6) == 64 && p2(8) == 256 && p2(15) == 32768 && p2(16) == 65536 && p2(30) == 0x4000_0000 && p2(31) == 0x8000_0000 && p2(32) == 0x1_0000_0000 && p2(63) == 0x8000_0000_0000_0000 && p2(64) == 0x1_0000_0000_0000_0000) by(compute);
}
pub proof fn lemma_p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b), p2(a) >= 1 decreases b
{ if a < b { lemma_p2_mono(a, (b - 1) as nat); } else if a > 0 { lemma_p2_mono((a-1) as nat, (a - 1) as nat); } }
pub proof fn lemma_sqrt_scan(n: int, h: nat)
    requires n >= 1, n < 0x8000_0000
    ensures n / (p4(h + 1) as int) == (n / (p4(h) as int)) / 4, p4(h) >= 1, (n / (p4(h) as int) != 0) <==> n >= p4(h), p4(h) <= n ==> h <= 15,
        (n / (p4(h) as int) != 0) ==> (n / (p4(h) as int)) / 4 < n / (p4(h) as int), n / (p4(h) as int) >= 0,
{
    lemma_p4(h); lemma_p2_vals();
    let q = p4(h) as int;
    assert(n / (4 * q) == (n / q) / 4) by { vstd::arithmetic::div_mod::lemma_div_denominator(n, q, 4); assert(q * 4 == 4 * q); }
    assert((n / q != 0) <==> n >= q) by(nonlinear_arith) requires n >= 1, q >= 1;
    assert(n / q >= 0) by(nonlinear_arith) requires n >= 1, q >= 1;
    if h > 15 { lemma_p2_mono(32, 2 * h); }
}
pub proof fn lemma_sqrt_start(n: int, h: nat)
    requires 1 <= h <= 16, n >= p4((h - 1) as nat), n / (p4(h) as int) == 0, n >= 1
    ensures ({ let l = p2((h - 1) as nat) as int; l * l <= n && n < (2 * l) * (2 * l) && 1 <= l <= 32768 })
{
    lemma_p4((h - 1) as nat); lemma_p4(h); lemma_p2_vals(); lemma_p2_mono((h - 1) as nat, 15); lemma_p2_mono(0, (h - 1) as nat);
    let q = p4(h) as int;
    assert(n < q) by(nonlinear_arith) requires n / q == 0, q >= 1, n >= 1;
    let l = p2((h - 1) as nat) as int;
    assert((2 * l) * (2 * l) == 4 * (l * l)) by(nonlinear_arith);
}
pub open spec fn is_p2(d: int) -> bool { exists|k: nat| d == #[trigger] p2(k) }
pub open spec fn sqrt_inv(n: int, lo: int, up: int, diff: int) -> bool {
    &&& 1 <= lo &&& up <= 65536 &&& lo <= 32768 * 2 - 1
    &&& lo * lo <= n &&& n < up * up
    &&& (diff == 0 ==> (up == lo + 1 && lo * lo < n))
    &&& (diff != 0 ==> (up - lo == diff && is_p2(diff)))
}
pub proof fn lemma_shl_p2_32(h: u32)
    requires h <= 31
    ensures (1i32 << h) as int == (if h < 31 { p2(h as nat) as int } else { -0x8000_0000 })
    decreases h
{
    if h == 0 { assert(1i32 << 0u32 == 1) by(bit_vector); assert(p2(0) == 1); }
    else if h < 31 {
        lemma_shl_p2_32((h - 1) as u32);
        let k = (h - 1) as u32;
        lemma_p2_mono(k as nat, 29); assert(p2(29) == 0x2000_0000) by(compute);
        assert((1i32 << h) == 2 * (1i32 << k)) by(bit_vector) requires h == k + 1, k < 30;
        assert(p2(h as nat) == 2 * p2(k as nat));
    } else { assert(1i32 << 31u32 == i32::MIN) by(bit_vector); }
}
pub proof fn lemma_sqrt_step(n: int, lo: int, up: int, diff: int)
    requires sqrt_inv(n, lo, up, diff), diff != 0, n < 0x8000_0000
    ensures ({ let h = diff / 2; let m = lo + h;
        &&& 0 <= h < diff &&& 1 <= m < 65536 &&& 0 <= m * m < 0x1_0000_0000
        &&& m * m < n ==> (m <= 65535 && sqrt_inv(n, m, up, h))
        &&& m * m > n ==> sqrt_inv(n, lo, up - h, h)
        &&& up - h >= 1
        &&& m * m == n ==> (is_fsqrt(m, n) && is_csqrt(m, n)) })
{
    let h = diff / 2; let m = lo + h;
    let k = choose|k: nat| diff == #[trigger] p2(k);
    if k == 0 { assert(p2(0) == 1); assert(h == 0); assert(m == lo); }
    else { assert(diff == 2 * p2((k - 1) as nat)); assert(h == p2((k - 1) as nat)); lemma_p2_mono(0, (k - 1) as nat); assert(is_p2(h)); }
    assert(0 <= m * m < 0x1_0000_0000) by(nonlinear_arith) requires 1 <= m < 65536;
    if m * m == n {
        assert((m + 1) * (m + 1) > m * m) by(nonlinear_arith) requires m >= 1;
        assert((m - 1) * (m - 1) < m * m) by(nonlinear_arith) requires m >= 1;
    }
}
pub proof fn lemma_sqrt_exit(n: int, lo: int, up: int, diff: int, ret: int)
    ensures (diff == 0 && sqrt_inv(n, lo, up, diff)) ==> (is_fsqrt(lo, n) && is_csqrt(up, n)), is_fsqrt(0, 0), is_csqrt(0, 0),
{
    if diff == 0 && sqrt_inv(n, lo, up, diff) { assert(up - 1 == lo); assert((up - 1) * (up - 1) == lo * lo) by(nonlinear_arith) requires up - 1 == lo; assert((lo + 1) * (lo + 1) == up * up) by(nonlinear_arith) requires up == lo + 1; }
}
pub proof fn lemma_i32_half(e: i32)
    requires e >= 0
    ensures ((e as u32) >> 1u32) == (e as u32) / 2, (e & 1) != 0 <==> e % 2 == 1, e & 1 == e % 2
{
    let u = e as u32;
    assert(u >> 1u32 == u / 2) by(bit_vector);
    assert(e & 1 == e % 2) by(bit_vector) requires e >= 0;
}
pub proof fn lemma_coprime_test(g: int, n: int, i: int)
    requires is_gcd(g, n, i), n >= 1, i >= 1, g >= 1
    ensures (g == 1) <==> coprime(n, i)
{
    if coprime(n, i) { lemma_gcd_unique(g, 1, n, i); }
}
// ---- Blankinship invariant -----------------------------------------------------
pub open spec fn ext_inv(a: int, b: int, mp: int, np: int, m: int, n: int, c: int, d: int) -> bool {
    &&& mp * a + np * b == c
    &&& m * a + n * b == d
    &&& abs_(n) * abs_(c) + abs_(np) * abs_(d) == abs_(a)
    &&& abs_(m) * abs_(c) + abs_(mp) * abs_(d) == abs_(b)
    &&& sgn3(np, n, c, d) && sgn3(mp, m, c, d)
}
// the cofactor signs alternate with the signs of c and d
pub open spec fn opp(x: int, y: int) -> bool { !(x > 0 && y > 0) && !(x < 0 && y < 0) }
pub open spec fn sgn3(x: int, y: int, c: int, d: int) -> bool { if (c > 0) == (d > 0) { opp(x, y) } else { opp(x, -y) } }
pub proof fn lemma_abs_mul(x: int, y: int)
    ensures abs_(x * y) == abs_(x) * abs_(y), (x > 0 && y > 0) ==> x * y > 0, (x < 0 && y < 0) ==> x * y > 0,
        (x > 0 && y < 0) ==> x * y < 0, (x < 0 && y > 0) ==> x * y < 0, (x == 0 || y == 0) ==> x * y == 0
{
    let a = abs_(x); let b = abs_(y); let p = a * b;
    assert(p >= 0) by(nonlinear_arith) requires p == a * b, a >= 0, b >= 0;
    assert((a > 0 && b > 0) ==> p > 0) by(nonlinear_arith) requires p == a * b;
    assert((a == 0 || b == 0) ==> p == 0) by(nonlinear_arith) requires p == a * b;
    assert((-a) * b == -(a * b)) by(nonlinear_arith);
    assert(a * (-b) == -(a * b)) by(nonlinear_arith);
    assert((-a) * (-b) == a * b) by(nonlinear_arith);
    assert(x == a || x == -a); assert(y == b || y == -b);
}
pub proof fn lemma_ext_init(a: int, b: int)
    ensures b != 0 ==> ext_inv(a, b, 1, 0, 0, 1, a, b)
{
    assert(1 * a + 0 * b == a && 0 * a + 1 * b == b);
    assert(abs_(1) == 1 && abs_(0) == 0);
}
pub proof fn lemma_ext_cof(x: int, y: int, c: int, d: int, q: int, r: int)
    requires d != 0, r != 0, c == d * q + r, abs_(c) == abs_(d) * abs_(q) + abs_(r), sgn3(x, y, c, d), q == 0 || ((q > 0) == ((c > 0) == (d > 0))), (r > 0) == (c > 0), c != 0
    ensures ({ let z = x - q * y; abs_(z) == abs_(x) + abs_(q) * abs_(y) && abs_(z) * abs_(d) + abs_(y) * abs_(r) == abs_(y) * abs_(c) + abs_(x) * abs_(d) && sgn3(y, z, d, r) && abs_(q * y) == abs_(q) * abs_(y) && abs_(q * y) <= abs_(z) })
{
    let z = x - q * y; let w = q * y;
    lemma_abs_mul(q, y);
    assert(opp(x, w));
    assert(abs_(z) == abs_(x) + abs_(w));
    let (ax, aq, ay, ad, ar) = (abs_(x), abs_(q), abs_(y), abs_(d), abs_(r));
    assert((ax + aq * ay) * ad + ay * ar == ay * (ad * aq + ar) + ax * ad) by(nonlinear_arith);
}
pub proof fn lemma_ext_step(a: int, b: int, mp: int, np: int, m: int, n: int, c: int, d: int)
    requires d != 0, ext_inv(a, b, mp, np, m, n, c, d), abs_(a) < 0x8000_0000, abs_(b) < 0x8000_0000, b != 0,
    ensures ({ let q = tdiv(c, d); let r = trem(c, d);
        r != 0 ==> (ext_inv(a, b, m, n, mp - q * m, np - q * n, d, r)
            && abs_(q * m) < 0x8000_0000 && abs_(q * n) < 0x8000_0000 && abs_(mp - q * m) < 0x8000_0000 && abs_(np - q * n) < 0x8000_0000) })
{
    let q = tdiv(c, d); let r = trem(c, d);
    lemma_trem(c, d);
    if r != 0 {
        lemma_tdiv_signs(c, d);
        lemma_ext_cof(np, n, c, d, q, r);
        lemma_ext_cof(mp, m, c, d, q, r);
        let m2 = mp - q * m; let n2 = np - q * n;
        assert((mp - q * m) * a + (np - q * n) * b == (mp * a + np * b) - q * (m * a + n * b)) by(nonlinear_arith);
        assert(q * d == d * q) by(nonlinear_arith);
        assert(m2 * a + n2 * b == r);
        let (an, ad, x, y, z) = (abs_(n2), abs_(d), abs_(n), abs_(r), abs_(m2));
        let w = abs_(m);
        assert(an * ad + x * y == abs_(a)); assert(z * ad + w * y == abs_(b));
        assert(an <= an * ad + x * y) by(nonlinear_arith) requires an >= 0, ad >= 1, x >= 0, y >= 0;
        assert(z <= z * ad + w * y) by(nonlinear_arith) requires z >= 0, ad >= 1, w >= 0, y >= 0;
    }
}
pub proof fn lemma_tdiv_signs(c: int, d: int)
    requires d != 0
    ensures ({ let q = tdiv(c, d); let r = trem(c, d); abs_(c) == abs_(d) * abs_(q) + abs_(r) && (q == 0 || (c != 0 && (q > 0) == ((c > 0) == (d > 0)))) && (r == 0 || (c != 0 && (r > 0) == (c > 0))) })
{
    lemma_trem(c, d); lemma_tdiv_bound(c, d);
    let q = tdiv(c, d); let r = trem(c, d); let x = abs_(c); let y = abs_(d); let k = x / y;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, y);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, y);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, y);
    vstd::arithmetic::div_mod::lemma_basic_div(0, y);
    assert(abs_(q) == k);
    lemma_abs_mul(d, q);
    assert(abs_(d * q) == y * k);
}
// ---- lcm -------------------------------------------------------------------------
pub open spec fn is_lcm(l: int, a: int, b: int) -> bool {
    divides(a, l) && divides(b, l) && forall|x: int| (#[trigger] divides(a, x) && divides(b, x)) ==> divides(l, x)
}
pub open spec fn lcm_fits(a: int, b: int) -> bool {
    forall|g: int| #[trigger] is_gcd(g, a, b) && g >= 1 && b != 0 ==> -0x8000_0000 <= tdiv(a, g) * b < 0x8000_0000
}
pub proof fn lemma_bezout_ex(a: int, b: int)
    requires b >= 0
    ensures exists|x: int, y: int, g: int| #[trigger] is_gcd(g, a, b) && g == #[trigger] (x * a + y * b)
    decreases b
{
    if b == 0 {
        lemma_gcd_zero(a, b);
        assert(is_gcd(a, a, b) && a == 1 * a + 0 * b);
    } else {
        let r = a % b; let q = a / b;
        assert(a == b * q + r && 0 <= r < b) by(nonlinear_arith) requires b > 0, r == a % b, q == a / b;
        lemma_bezout_ex(b, r);
        let (x, y, g) = choose|x: int, y: int, g: int| #[trigger] is_gcd(g, b, r) && g == #[trigger] (x * b + y * r);
        assert forall|d: int| #[trigger] cdiv(d, b, r) <==> cdiv(d, a, b) by {
            assert(q * b == b * q) by(nonlinear_arith);
            if cdiv(d, b, r) { lemma_div_lin(d, r, b, q); }
            if cdiv(d, a, b) { lemma_div_lin(d, a, b, q); }
        }
        assert(cdiv(g, b, r));
        assert(is_gcd(g, a, b)) by { assert forall|d: int| #[trigger] cdiv(d, a, b) implies divides(d, g) by { assert(cdiv(d, b, r)); } }
        let x2 = y; let y2 = x - y * q;
        assert(g == x2 * a + y2 * b) by(nonlinear_arith) requires g == x * b + y * r, a == b * q + r, x2 == y, y2 == x - y * q;
    }
}
pub proof fn lemma_bezout(a: int, b: int, g: int)
    requires is_gcd(g, a, b)
    ensures exists|x: int, y: int| g == #[trigger] (x * a + y * b)
{
    let bb = abs_(b);
    lemma_bezout_ex(a, bb);
    let (x, y, h) = choose|x: int, y: int, h: int| #[trigger] is_gcd(h, a, bb) && h == #[trigger] (x * a + y * bb);
    lemma_cdiv_abs(a, b, a, bb);
    assert(is_gcd(h, a, b)) by { assert(cdiv(h, a, bb)); assert forall|d: int| #[trigger] cdiv(d, a, b) implies divides(d, h) by { assert(cdiv(d, a, bb)); } }
    lemma_gcd_unique(g, h, a, b);
    let s = if g == h { 1int } else { -1int }; let t = if b == bb { 1int } else { -1int };
    let x2 = s * x; let y2 = s * y * t;
    assert(x2 * a == s * (x * a)) by(nonlinear_arith) requires x2 == s * x;
    assert(y2 * b == s * (y * bb)) by { if b == bb { assert(1 * b == b); } else { assert((-1) * b == -b); } assert((s * y * t) * b == s * (y * (t * b))) by(nonlinear_arith); }
    assert(s * (x * a + y * bb) == s * (x * a) + s * (y * bb)) by(nonlinear_arith);
    if g == h { assert(1 * h == h); } else { assert((-1) * h == -h); }
    assert(g == x2 * a + y2 * b);
}
pub proof fn lemma_lcm(a: int, b: int)
    requires a != 0, b != 0
    ensures forall|g: int| (#[trigger] is_gcd(g, a, b) && g >= 1) ==> (tdiv(a, g) * g == a && is_lcm(tdiv(a, g) * b, a, b) && abs_(tdiv(a, g)) <= abs_(a))
{
    assert forall|g: int| (#[trigger] is_gcd(g, a, b) && g >= 1) implies (tdiv(a, g) * g == a && is_lcm(tdiv(a, g) * b, a, b) && abs_(tdiv(a, g)) <= abs_(a)) by {
        let q = tdiv(a, g);
        lemma_trem(a, g); lemma_tdiv_bound(a, g);
        assert(cdiv(g, a, b));
        let k = choose|k: int| a == #[trigger] (g * k); let l = choose|l: int| b == #[trigger] (g * l);
        assert(a % g == 0) by { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k, g); assert(k * g == g * k) by(nonlinear_arith); }
        assert(a == g * q);
        assert(q * g == g * q) by(nonlinear_arith);
        let m = q * b;
        assert(m == a * l) by(nonlinear_arith) requires m == q * b, b == g * l, a == g * q;
        assert(m == b * q) by(nonlinear_arith) requires m == q * b;
        assert forall|x: int| (#[trigger] divides(a, x) && divides(b, x)) implies divides(m, x) by {
            let u = choose|u: int| x == #[trigger] (a * u); let v = choose|v: int| x == #[trigger] (b * v);
            lemma_bezout(a, b, g);
            let (s, t) = choose|s: int, t: int| g == #[trigger] (s * a + t * b);
            // g*x = s*a*x + t*b*x = s*a*b*v + t*b*a*u = g*m*(s*v + t*u)
            let w = s * v + t * u;
            assert(a * b == g * m) by(nonlinear_arith) requires m == q * b, a == g * q;
            assert((s * a + t * b) * x == (s * a) * x + (t * b) * x) by(nonlinear_arith);
            assert((s * a) * (b * v) == (a * b) * (s * v)) by(nonlinear_arith);
            assert((t * b) * (a * u) == (a * b) * (t * u)) by(nonlinear_arith);
            assert((a * b) * (s * v + t * u) == (a * b) * (s * v) + (a * b) * (t * u)) by(nonlinear_arith);
            assert(g * x == (a * b) * w);
            assert((g * m) * w == g * (m * w)) by(nonlinear_arith);
            assert(x == m * w) by(nonlinear_arith) requires g * x == g * (m * w), g >= 1;
        }
    }
}
