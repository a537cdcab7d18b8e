// ---- the table of spffl/intmath/primes_16.cpp is exactly the primes below 2^16 ----
pub open spec fn np() -> int { tbls_primes_16_len() }
pub open spec fn tp(i: int) -> int { tbls_primes_16(i) }
// trial division of k by 2, 3, 5, 7, ... (odd d) while d*d <= k
pub open spec fn trial(k: int, d: int, fuel: nat) -> bool decreases fuel {
    if d * d > k { true } else if fuel == 0 { false } else if k % d == 0 { false } else { trial(k, d + 2, (fuel - 1) as nat) }
}
pub open spec fn sieve(k: int) -> bool { k == 2 || (k % 2 == 1 && k >= 3 && trial(k, 3, 130)) }
// walk k over [lo, hi) with i the index of the first table entry >= k; returns the index of the first entry >= hi, or -1
pub open spec fn walk(k: int, hi: int, i: int) -> int decreases hi - k {
    if k >= hi { i } else if i < np() && tp(i) == k { if sieve(k) { walk(k + 1, hi, i + 1) } else { -1 } } else { if sieve(k) { -1 } else { walk(k + 1, hi, i) } }
}
pub open spec fn pcount(k: int) -> int decreases k { if k <= 2 { 0 } else { pcount(k - 1) + (if is_prime(k - 1) { 1int } else { 0 }) } }
pub proof fn lemma_trial(k: int, d: int, fuel: nat)
    requires 3 <= k < 65536, k % 2 == 1, d >= 3, d % 2 == 1, no_div(k, d), d + 2 * fuel >= 263
    ensures trial(k, d, fuel) == is_prime(k)
    decreases fuel
{
    if d * d > k { lemma_prime_sqrt(k, d); }
    else if fuel == 0 { assert(d * d > k) by(nonlinear_arith) requires d >= 263, k < 65536; }
    else if k % d == 0 { assert(dvd(d, k)); assert(d < k) by(nonlinear_arith) requires d * d <= k, d >= 3; }
    else {
        lemma_odd_no_even(k, d + 1); assert(!dvd(d, k));
        assert forall|x: int| 2 <= x < d + 2 implies !#[trigger] dvd(x, k) by { if x >= d { assert(x == d || x == d + 1); } }
        lemma_trial(k, d + 2, (fuel - 1) as nat);
    }
}
pub proof fn lemma_sieve(k: int) requires 2 <= k < 65536 ensures sieve(k) == is_prime(k)
{
    lemma_small_primes(k);
    if k >= 3 && k % 2 == 1 { lemma_trial(k, 3, 130); }
}
pub open spec fn tab_in(k: int, hi: int, i: int, r: int) -> bool {
    &&& forall|j: int| i <= j < r ==> k <= #[trigger] tp(j) < hi && is_prime(tp(j)) && pcount(tp(j)) == j
    &&& forall|p: int| k <= p < hi && #[trigger] is_prime(p) ==> i <= pcount(p) < r && tp(pcount(p)) == p
}
pub proof fn lemma_walk(k: int, hi: int, i: int)
    requires 2 <= k <= hi <= 65536, 0 <= i <= np(), i == pcount(k), walk(k, hi, i) != -1
    ensures ({ let r = walk(k, hi, i); i <= r <= np() && r == pcount(hi) && tab_in(k, hi, i, r) })
    decreases hi - k
{
    if k < hi {
        lemma_sieve(k);
        let i2 = if i < np() && tp(i) == k { i + 1 } else { i };
        assert(pcount(k + 1) == i2);
        lemma_walk(k + 1, hi, i2);
        let r = walk(k, hi, i);
        assert(r == walk(k + 1, hi, i2));
        assert forall|j: int| i <= j < r implies k <= #[trigger] tp(j) < hi && is_prime(tp(j)) && pcount(tp(j)) == j by { }
        assert forall|p: int| k <= p < hi && #[trigger] is_prime(p) implies i <= pcount(p) < r && tp(pcount(p)) == p by { if p == k { assert(i2 == i + 1); assert(r >= i2); } }
    }
}
pub proof fn lemma_tab_join(a: int, b: int, c: int, i: int, j: int, k: int)
    requires tab_in(a, b, i, j), tab_in(b, c, j, k), i <= j <= k, a <= b <= c
    ensures tab_in(a, c, i, k)
{
    assert forall|x: int| i <= x < k implies a <= #[trigger] tp(x) < c && is_prime(tp(x)) && pcount(tp(x)) == x by { if x < j { } else { } }
    assert forall|p: int| a <= p < c && #[trigger] is_prime(p) implies i <= pcount(p) < k && tp(pcount(p)) == p by { if p < b { } else { } }
}
pub proof fn lemma_pcount_mono(a: int, b: int) requires a <= b ensures pcount(a) <= pcount(b), pcount(a) >= 0 decreases b - a, b
{ if a < b { lemma_pcount_mono(a, b - 1); } else if a > 2 { lemma_pcount_mono(a - 1, a - 1); } }
// what the loop of isprime_table concludes
pub open spec fn tab_free(n: int, i: int) -> bool { forall|j: int| 0 <= j < i ==> !dvd(#[trigger] tp(j), n) }
pub proof fn lemma_tab_prime(n: int, i: int)
    requires 2 <= n < 0x8000_0000, 0 <= i <= np(), tab_free(n, i), np() == 6542, tab_in(2, 65536, 0, 6542), i < np() ==> tp(i) * tp(i) > n
    ensures is_prime(n)
{
    if !is_prime(n) {
        let d = choose|d: int| 2 <= d < n && #[trigger] dvd(d, n);
        lemma_dvd_mul(d, n);
        let e = n / d;
        assert(2 <= e < n) by(nonlinear_arith) requires n == d * e, 2 <= d < n;
        lemma_mod_multiples_basic(d, e);
        let m = if d <= e { d } else { e };
        assert(dvd(m, n));
        assert(m * m <= n) by(nonlinear_arith) requires n == d * e, m <= d, m <= e, m >= 2;
        assert(m < 65536) by(nonlinear_arith) requires m * m <= n, n < 0x8000_0000;
        let p = lemma_has_prime_div(n, m);
        let j = pcount(p);
        assert(tp(j) == p && 0 <= j < 6542);
        if j >= i {
            assert(p * p <= n) by(nonlinear_arith) requires 2 <= p <= m, m * m <= n;
            assert(is_prime(tp(i)));
            if tp(i) > p { lemma_pcount_mono(p + 1, tp(i)); assert(pcount(p + 1) == pcount(p) + 1); assert(false); }
            let t = tp(i);
            assert(t * t <= p * p) by(nonlinear_arith) requires 2 <= t <= p;
        }
    }
}
