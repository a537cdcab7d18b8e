// ---- bit positions, logarithms, population counts --------------------------
pub proof fn lemma_p2_all() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024, p2(11) == 2048, p2(12) == 4096, p2(13) == 8192, p2(14) == 16384, p2(15) == 32768, p2(16) == 65536, p2(17) == 131072, p2(18) == 262144, p2(19) == 524288, p2(20) == 1048576, p2(21) == 2097152, p2(22) == 4194304, p2(23) == 8388608, p2(24) == 16777216, p2(25) == 33554432, p2(26) == 67108864, p2(27) == 134217728, p2(28) == 268435456, p2(29) == 536870912, p2(30) == 1073741824, p2(31) == 2147483648, p2(32) == 4294967296, p2(33) == 8589934592, p2(34) == 17179869184, p2(35) == 34359738368, p2(36) == 68719476736, p2(37) == 137438953472, p2(38) == 274877906944, p2(39) == 549755813888, p2(40) == 1099511627776, p2(41) == 2199023255552, p2(42) == 4398046511104, p2(43) == 8796093022208, p2(44) == 17592186044416, p2(45) == 35184372088832, p2(46) == 70368744177664, p2(47) == 140737488355328, p2(48) == 281474976710656, p2(49) == 562949953421312, p2(50) == 1125899906842624, p2(51) == 2251799813685248, p2(52) == 4503599627370496, p2(53) == 9007199254740992, p2(54) == 18014398509481984, p2(55) == 36028797018963968, p2(56) == 72057594037927936, p2(57) == 144115188075855872, p2(58) == 288230376151711744, p2(59) == 576460752303423488, p2(60) == 1152921504606846976, p2(61) == 2305843009213693952, p2(62) == 4611686018427387904, p2(63) == 9223372036854775808, p2(64) == 18446744073709551616
{ assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32 && p2(6) == 64 && p2(7) == 128 && p2(8) == 256 && p2(9) == 512 && p2(10) == 1024 && p2(11) == 2048 && p2(12) == 4096 && p2(13) == 8192 && p2(14) == 16384 && p2(15) == 32768 && p2(16) == 65536 && p2(17) == 131072 && p2(18) == 262144 && p2(19) == 524288 && p2(20) == 1048576 && p2(21) == 2097152 && p2(22) == 4194304 && p2(23) == 8388608 && p2(24) == 16777216 && p2(25) == 33554432 && p2(26) == 67108864 && p2(27) == 134217728 && p2(28) == 268435456 && p2(29) == 536870912 && p2(30) == 1073741824 && p2(31) == 2147483648 && p2(32) == 4294967296 && p2(33) == 8589934592 && p2(34) == 17179869184 && p2(35) == 34359738368 && p2(36) == 68719476736 && p2(37) == 137438953472 && p2(38) == 274877906944 && p2(39) == 549755813888 && p2(40) == 1099511627776 && p2(41) == 2199023255552 && p2(42) == 4398046511104 && p2(43) == 8796093022208 && p2(44) == 17592186044416 && p2(45) == 35184372088832 && p2(46) == 70368744177664 && p2(47) == 140737488355328 && p2(48) == 281474976710656 && p2(49) == 562949953421312 && p2(50) == 1125899906842624 && p2(51) == 2251799813685248 && p2(52) == 4503599627370496 && p2(53) == 9007199254740992 && p2(54) == 18014398509481984 && p2(55) == 36028797018963968 && p2(56) == 72057594037927936 && p2(57) == 144115188075855872 && p2(58) == 288230376151711744 && p2(59) == 576460752303423488 && p2(60) == 1152921504606846976 && p2(61) == 2305843009213693952 && p2(62) == 4611686018427387904 && p2(63) == 9223372036854775808 && p2(64) == 18446744073709551616) by(compute); }
pub open spec fn is_msb(r: int, n: int) -> bool { r >= 0 && p2(r as nat) <= n && n < 2 * p2(r as nat) }
// bit r of n is set and no lower one is: n is an odd multiple of 2^r
pub open spec fn is_lsb(r: int, n: int) -> bool { r >= 0 && n % (p2(r as nat) as int) == 0 && (n / (p2(r as nat) as int)) % 2 == 1 }
pub open spec fn is_clog2(r: int, n: int) -> bool { r >= 0 && n <= p2(r as nat) && (r >= 1 ==> p2((r - 1) as nat) < n) }
pub open spec fn p10(n: nat) -> nat decreases n { if n == 0 { 1 } else { 10 * p10((n - 1) as nat) } }
pub open spec fn is_flog10(r: int, n: int) -> bool { r >= 0 && p10(r as nat) <= n && n < 10 * p10(r as nat) }
pub open spec fn popcount(n: int) -> int decreases n { if n <= 0 { 0 } else { n % 2 + popcount(n / 2) } }
pub open spec fn ones_upto(s: Seq<u8>, k: int) -> int decreases k { if k <= 0 { 0 } else { ones_upto(s, k - 1) + popcount(s[k - 1] as int) } }
pub proof fn lemma_ones_bound(s: Seq<u8>, k: int) requires 0 <= k <= s.len() ensures 0 <= ones_upto(s, k) <= 8 * k decreases k
{ if k > 0 { lemma_ones_bound(s, k - 1); lemma_pop8(s[k - 1] as int); } }
pub proof fn lemma_pop8(n: int) requires 0 <= n < 256 ensures 0 <= popcount(n) <= 8
{ reveal_with_fuel(popcount, 9); }

pub proof fn lemma_p2_64(r: nat) ensures p2(r + 1) == 2 * p2(r), r >= 1 ==> p2(r) == 2 * p2((r - 1) as nat), r >= 32 ==> p2(r) == 0x1_0000_0000 * p2((r - 32) as nat), p2(r) >= 1
    decreases r
{ lemma_p2_pow2(r); if r > 32 { lemma_p2_64((r - 1) as nat); } else if r == 32 { lemma_p2_all(); } }
// lowest set bit of n from its low k bits / its high part
pub proof fn lemma_lsb_comp(n: int, k: nat, r: int)
    requires n >= 0, k >= 1
    ensures (n % (p2(k) as int) != 0 && 0 <= r < k && is_lsb(r, n % (p2(k) as int))) ==> is_lsb(r, n),
        (n % (p2(k) as int) == 0 && k <= r && is_lsb(r - k, n / (p2(k) as int))) ==> is_lsb(r, n)
{
    lemma_p2_pow2(k);
    let kk = p2(k) as int;
    let lo = n % kk; let hi = n / kk;
    lemma_fundamental_div_mod(n, kk);
    if lo != 0 && 0 <= r < k && is_lsb(r, lo) {
        let q = p2(r as nat) as int;
        let d = (k - 1 - r) as nat;
        lemma_p2_add(r as nat, d); lemma_p2_pow2(r as nat); lemma_p2_pow2(d);
        assert(p2(k) == 2 * p2((k - 1) as nat)); assert((k - 1) as nat == r as nat + d);
        let e = hi * p2(d); let m = 2 * e;  // n = lo + m * q, m even
        let dd = p2(d) as int;
        assert(kk == 2 * (q * dd));
        assert(kk * hi == m * q) by(nonlinear_arith) requires kk == 2 * (q * dd), e == hi * dd, m == 2 * e;
        assert(n == m * q + lo);
        lemma_mod_multiples_vanish(m, lo, q);
        assert(m * q == q * m) by(nonlinear_arith);
        assert(n == q * m + lo);
        lemma_hoist_over_denominator(lo, m, q as nat);
        lemma_mod_multiples_vanish(e, lo / q, 2);
    }
    if lo == 0 && k <= r && is_lsb(r - k, hi) {
        let q = p2((r - k) as nat) as int;
        lemma_p2_add(k, (r - k) as nat); lemma_p2_pow2((r - k) as nat);
        assert(k + (r - k) as nat == r as nat);
        assert(p2(r as nat) == kk * q);
        lemma_div_denominator(n, kk, q);
        lemma_fundamental_div_mod(hi, q);
        let w = hi / q;
        assert(hi == q * w);
        assert(n == w * (kk * q)) by(nonlinear_arith) requires n == kk * hi, hi == q * w;
        assert(kk * q >= 1) by(nonlinear_arith) requires kk >= 1, q >= 1;
        lemma_mod_multiples_basic(w, kk * q);
    }
}
pub open spec fn lsbf4(n: int) -> int { if n % 2 == 1 { 0 } else if n % 4 == 2 { 1 } else if n % 8 == 4 { 2 } else { 3 } }
pub open spec fn lsbf8(n: int) -> int { if n % 16 != 0 { lsbf4(n % 16) } else { 4 + lsbf4(n / 16) } }
pub open spec fn lsbf16(n: int) -> int { if n % 256 != 0 { lsbf8(n % 256) } else { 8 + lsbf8(n / 256) } }
pub open spec fn lsbf32(n: int) -> int { if n % 65536 != 0 { lsbf16(n % 65536) } else { 16 + lsbf16(n / 65536) } }
pub proof fn lemma_lsbf4(n: int) requires 1 <= n < 16 ensures is_lsb(lsbf4(n), n)
{
    lemma_p2_all();
    assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(3) == 8);
    let r = lsbf4(n);
    if r == 0 { assert(n % 2 == 1); assert(is_lsb(0, n)); } else if r == 1 { assert(n % 4 == 2); assert(is_lsb(1, n)); } else if r == 2 { assert(n % 8 == 4); assert(is_lsb(2, n)); }
    else { assert(n % 2 == 0 && n % 4 != 2 && n % 8 != 4); assert(n == 8); assert(is_lsb(3, 8)); }
}
pub proof fn lemma_lsbf8(n: int) requires 1 <= n < 256 ensures is_lsb(lsbf8(n), n), 0 <= lsbf8(n) < 8
{ assert(p2(4) == 16) by(compute); if n % 16 != 0 { lemma_lsbf4(n % 16); } else { lemma_lsbf4(n / 16); } lemma_lsb_comp(n, 4, lsbf8(n)); }
pub proof fn lemma_lsbf16(n: int) requires 1 <= n < 65536 ensures is_lsb(lsbf16(n), n), 0 <= lsbf16(n) < 16
{ assert(p2(8) == 256) by(compute); if n % 256 != 0 { lemma_lsbf8(n % 256); } else { lemma_lsbf8(n / 256); } lemma_lsb_comp(n, 8, lsbf16(n)); }
pub proof fn lemma_lsbf32(n: int) requires 1 <= n < 0x1_0000_0000 ensures is_lsb(lsbf32(n), n), 0 <= lsbf32(n) < 32
{ assert(p2(16) == 65536) by(compute); if n % 65536 != 0 { lemma_lsbf16(n % 65536); } else { lemma_lsbf16(n / 65536); } lemma_lsb_comp(n, 16, lsbf32(n)); }
pub proof fn lemma_p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b)
{ lemma_p2_pow2(a); lemma_p2_pow2(b); lemma_p2_pow2(a + b); vstd::arithmetic::power2::lemma_pow2_adds(a, b); }
pub proof fn lemma_log10_step(n: int, m: int, rv: nat)
    requires n >= 0, p10(rv) * n <= m, m < p10(rv) * (n + 1), p10(rv) >= 1
    ensures p10(rv + 1) * (n / 10) <= m, m < p10(rv + 1) * (n / 10 + 1), p10(rv + 1) == 10 * p10(rv), n >= 1 ==> p10(rv) <= m, m < 0x1999_999a && n >= 1 ==> rv < 10
{
    let p = p10(rv) as int; let q = n / 10;
    assert((10 * p) * q == p * (10 * q)) by(nonlinear_arith);
    assert((10 * p) * (q + 1) == p * (10 * q + 10)) by(nonlinear_arith);
    assert(p * (10 * q) <= p * n) by(nonlinear_arith) requires p >= 1, 10 * q <= n;
    assert(p * (n + 1) <= p * (10 * q + 10)) by(nonlinear_arith) requires p >= 1, n + 1 <= 10 * q + 10;
    if n >= 1 { assert(p * n >= p) by(nonlinear_arith) requires p >= 1, n >= 1; }
    if n >= 1 && rv >= 10 && m < 0x1999_999a {
        lemma_p10_mono(10, rv); assert(p10(10) == 10_000_000_000) by(compute);
        assert(p * n >= p) by(nonlinear_arith) requires p >= 1, n >= 1;
    }
}
pub proof fn lemma_p10_mono(a: nat, b: nat) requires a <= b ensures p10(a) <= p10(b) decreases b
{ if a < b { lemma_p10_mono(a, (b - 1) as nat); } }
pub proof fn lemma_log10_exit(n0: int, rv: nat)
    requires n0 >= 1
    ensures (n0 / 10 < p10(rv) && (rv >= 1 ==> n0 / 10 >= p10((rv - 1) as nat))) ==> is_flog10(rv as int, n0)
{
    if n0 / 10 < p10(rv) && (rv >= 1 ==> n0 / 10 >= p10((rv - 1) as nat)) {
        assert(n0 < 10 * p10(rv)); if rv == 0 { assert(p10(0) == 1); } else { assert(p10(rv) == 10 * p10((rv - 1) as nat)); }
    }
}
