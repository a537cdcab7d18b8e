// ---- primality -----------------------------------------------------------------
pub open spec fn dvd(d: int, n: int) -> bool { d >= 1 && n % d == 0 }
pub open spec fn is_prime(n: int) -> bool { n >= 2 && forall|d: int| 2 <= d < n ==> !#[trigger] dvd(d, n) }
// no divisor in [2, k)
pub open spec fn no_div(n: int, k: int) -> bool { forall|d: int| 2 <= d < k ==> !#[trigger] dvd(d, n) }
pub proof fn lemma_dvd_mul(d: int, n: int) requires d >= 1 ensures dvd(d, n) <==> n == d * (n / d)
{ lemma_fundamental_div_mod(n, d); }
pub proof fn lemma_dvd_trans(d: int, e: int, n: int) requires dvd(d, e), dvd(e, n) ensures dvd(d, n)
{
    lemma_dvd_mul(d, e); lemma_dvd_mul(e, n);
    let k = e / d; let l = n / e;
    assert(n == d * (k * l)) by(nonlinear_arith) requires n == e * l, e == d * k;
    lemma_mod_multiples_basic(k * l, d);
    assert(d * (k * l) == (k * l) * d) by(nonlinear_arith);
}
// trial division up to the square root decides primality
pub proof fn lemma_prime_sqrt(n: int, k: int)
    requires n >= 2, no_div(n, k), k * k > n, k >= 1
    ensures is_prime(n)
{
    assert forall|d: int| 2 <= d < n implies !#[trigger] dvd(d, n) by {
        if dvd(d, n) {
            lemma_dvd_mul(d, n);
            let e = n / d;
            if d >= k {
                assert(e < k) by(nonlinear_arith) requires n == d * e, d >= k, k * k > n, k >= 1;
                assert(e >= 2) by(nonlinear_arith) requires n == d * e, 2 <= d < n;
                lemma_mod_multiples_basic(d, e);
                assert(dvd(e, n));
            }
        }
    }
}
pub proof fn lemma_not_prime(n: int, d: int) requires 2 <= d < n, dvd(d, n) ensures !is_prime(n) {}
pub proof fn lemma_odd_no_even(n: int, d: int) requires n % 2 == 1, d >= 2, d % 2 == 0 ensures !dvd(d, n)
{ if dvd(d, n) { lemma_dvd_mul(d, n); let k = n / d; let h = d / 2; assert(n == 2 * (h * k)) by(nonlinear_arith) requires n == d * k, d == 2 * h; } }
// one step of the trial loop: d odd candidate
pub proof fn lemma_trial_step(n: int, d: int)
    requires n % 2 == 1, d >= 3, d % 2 == 1, no_div(n, d), n >= 4
    ensures ({ let q = n / d; 0 <= q * d <= n && (n == q * d <==> dvd(d, n)) && (n != q * d ==> no_div(n, d + 2)) && 0 <= q < n })
{
    let q = n / d;
    lemma_fundamental_div_mod(n, d); lemma_mod_bound(n, d);
    assert(q * d == d * q) by(nonlinear_arith);
    lemma_div_pos_is_pos(n, d);
    assert(q * d >= 0) by(nonlinear_arith) requires q >= 0, d >= 3;
    assert(q < n) by(nonlinear_arith) requires n >= d * q, d >= 3, q >= 0, n >= 4;
    if n != q * d {
        lemma_odd_no_even(n, d + 1);
        assert forall|x: int| 2 <= x < d + 2 implies !#[trigger] dvd(x, n) by { if x >= d { assert(x == d || x == d + 1); } }
    }
}
// consequences of the loop condition, q being the last quotient
pub proof fn lemma_trial_bound(n: int, d: int, q: int)
    requires n >= 5, d >= 5, q == n / (d - 2)
    ensures d > q ==> d * d > n, d <= q ==> d * (d - 2) <= n && d < n && (n < 0x8000_0000 ==> d <= 46342)
{
    let e = d - 2;
    lemma_fundamental_div_mod(n, e); lemma_mod_bound(n, e);
    if d > q { assert(d * d > n) by(nonlinear_arith) requires n < e * q + e, d >= q + 1, e == d - 2, d >= 5; }
    else {
        assert(d * e <= n) by(nonlinear_arith) requires e * q <= n, d <= q, e >= 3;
        assert(d < n) by(nonlinear_arith) requires d * e <= n, e >= 3, d >= 5;
        if n < 0x8000_0000 { assert(d <= 46342) by(nonlinear_arith) requires d * (d - 2) < 0x8000_0000, d >= 5; }
    }
}
pub proof fn lemma_small_primes(n: int) ensures is_prime(2), is_prime(3), n >= 4 && n % 2 == 0 ==> !is_prime(n), n <= 1 ==> !is_prime(n), no_div(n, 2), n % 2 == 1 ==> no_div(n, 3)
{
    assert(is_prime(2)); assert(is_prime(3)) by { assert(!dvd(2, 3)); }
    if n >= 4 && n % 2 == 0 { assert(dvd(2, n)); }
    if n % 2 == 1 { assert(!dvd(2, n)); }
}
// smallest divisor of a composite is prime
pub proof fn lemma_has_prime_div(n: int, d: int) -> (p: int)
    requires n >= 2, dvd(d, n), d >= 2
    ensures is_prime(p), dvd(p, n), p <= d
    decreases d
{
    if is_prime(d) { d } else {
        let e = choose|e: int| 2 <= e < d && #[trigger] dvd(e, d);
        lemma_dvd_trans(e, d, n);
        lemma_has_prime_div(n, e)
    }
}
