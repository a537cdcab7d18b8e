// ---- packed bits: bit k of a word counts from the most significant end ------
pub open spec fn bitw(w: u64, k: int) -> bool { (w >> ((63 - k) as u64)) & 1 == 1 }
pub open spec fn vb(s: Seq<u64>, i: int) -> bool { bitw(s[i / 64], i % 64) }
pub open spec fn nw(n: int) -> int { (n + 63) / 64 }
pub proof fn lemma_wordops(x: u64, y: u64, k: int)
    requires 0 <= k < 64
    ensures bitw(x ^ y, k) == (bitw(x, k) != bitw(y, k)), bitw(x & y, k) == (bitw(x, k) && bitw(y, k)), bitw(x | y, k) == (bitw(x, k) || bitw(y, k)),
        bitw(!x, k) == !bitw(x, k), !bitw(0, k), bitw(!0u64, k)
{
    let s: u64 = (63 - k) as u64;
    assert(((x ^ y) >> s) & 1 == (if ((x >> s) & 1 == 1) != ((y >> s) & 1 == 1) { 1u64 } else { 0u64 })) by(bit_vector) requires s < 64;
    assert(((x & y) >> s) & 1 == (if ((x >> s) & 1 == 1) && ((y >> s) & 1 == 1) { 1u64 } else { 0u64 })) by(bit_vector) requires s < 64;
    assert(((x | y) >> s) & 1 == (if ((x >> s) & 1 == 1) || ((y >> s) & 1 == 1) { 1u64 } else { 0u64 })) by(bit_vector) requires s < 64;
    assert(((!x) >> s) & 1 == (if (x >> s) & 1 == 1 { 0u64 } else { 1u64 })) by(bit_vector) requires s < 64;
    assert((0u64 >> s) & 1 == 0) by(bit_vector) requires s < 64;
    assert(((!0u64) >> s) & 1 == 1) by(bit_vector) requires s < 64;
}
// w with its bit k cleared, set, toggled
pub proof fn lemma_onebit(w: u64, k: int, j: int)
    requires 0 <= k < 64, 0 <= j < 64
    ensures ({ let m = 1u64 << ((63 - k) as u64); &&& bitw(m, j) == (j == k) &&& bitw(w | m, j) == (j == k || bitw(w, j)) &&& bitw(w & !m, j) == (j != k && bitw(w, j)) &&& bitw(w ^ m, j) == (if j == k { !bitw(w, j) } else { bitw(w, j) }) })
{
    let s: u64 = (63 - k) as u64; let t: u64 = (63 - j) as u64; let m = 1u64 << s;
    assert(((1u64 << s) >> t) & 1 == (if s == t { 1u64 } else { 0u64 })) by(bit_vector) requires s < 64, t < 64;
    assert((s == t) == (j == k));
    lemma_wordops(w, m, j); lemma_wordops(w, !m, j); lemma_wordops(m, m, j);
}
pub proof fn lemma_word_zero(w: u64) requires forall|k: int| 0 <= k < 64 ==> !#[trigger] bitw(w, k) ensures w == 0
{ lemma_word_ext(w, 0, 64); assert forall|k: int| 0 <= k < 64 implies bitw(w, k) == #[trigger] bitw(0, k) by { lemma_wordops(w, 0, k); } lemma_word_eq(w, 0); }
pub proof fn lemma_word_eq(a: u64, b: u64) requires forall|k: int| 0 <= k < 64 ==> bitw(a, k) == #[trigger] bitw(b, k) ensures a == b
{
    assert forall|k: int| 0 <= k < 64 implies #[trigger] bitw(a, k) == bitw(b, k) by { assert(bitw(a, k) == bitw(b, k)) by { let q = bitw(b, k); } }
    lemma_word_ext(a, b, 64);
    assert(a >> 0 == a) by(bit_vector); assert(b >> 0 == b) by(bit_vector);
}
pub proof fn lemma_word_ext(a: u64, b: u64, n: int)
    requires 0 <= n <= 64
    ensures (forall|k: int| 0 <= k < n ==> #[trigger] bitw(a, k) == bitw(b, k)) ==> (n == 0 || a >> ((64 - n) as u64) == b >> ((64 - n) as u64))
    decreases n
{
    if n > 0 {
        lemma_word_ext(a, b, n - 1);
        let s: u64 = (64 - n) as u64;
        if forall|k: int| 0 <= k < n ==> #[trigger] bitw(a, k) == bitw(b, k) {
            assert(bitw(a, n - 1) == bitw(b, n - 1));
            assert((63 - (n - 1)) as u64 == s);
            assert((a >> s) & 1 == 0 || (a >> s) & 1 == 1) by(bit_vector);
            assert((b >> s) & 1 == 0 || (b >> s) & 1 == 1) by(bit_vector);
            if n > 1 {
                let s1: u64 = (s + 1) as u64;
                assert(s1 == (64 - (n - 1)) as u64);
                assert(a >> s == b >> s) by(bit_vector) requires s < 63, s1 == s + 1, a >> s1 == b >> s1, (a >> s) & 1 == (b >> s) & 1;
            } else {
                assert(a >> s == b >> s) by(bit_vector) requires s == 63, (a >> s) & 1 == (b >> s) & 1;
            }
        }
    }
}
pub proof fn lemma_word_some(w: u64) -> (k: int) requires w != 0 ensures 0 <= k < 64, bitw(w, k)
{
    if forall|k: int| 0 <= k < 64 ==> !#[trigger] bitw(w, k) { lemma_word_zero(w); }
    choose|k: int| 0 <= k < 64 && #[trigger] bitw(w, k)
}
pub open spec fn bvmax() -> int { 0x7fff_ffc0 }
pub open spec fn bval(b: bool) -> int { if b { 1 } else { 0 } }
pub proof fn lemma_widx(i: int, n: int) requires 0 <= i, i < 64 * n ensures 0 <= i / 64 < n, 0 <= i % 64 < 64, i == 64 * (i / 64) + i % 64
{ }
pub proof fn lemma_nw(n: int) requires 0 <= n <= bvmax() ensures 0 <= nw(n) <= 0x1ff_ffff, n <= 64 * nw(n) < n + 64, n > 0 ==> nw(n) >= 1
{ }
// one bit changed: word index/position as the code computes them
pub proof fn lemma_bitpos(i: u64)
    ensures i >> 6 == i / 64, i & 63 == i % 64
{
    assert(i >> 6 == i / 64) by(bit_vector); assert(i & 63 == i % 64) by(bit_vector);
}
pub proof fn lemma_getbit(w: u64, k: int) requires 0 <= k < 64 ensures (w >> ((63 - k) as u64)) & 1 == (if bitw(w, k) { 1u64 } else { 0u64 })
{ let s: u64 = (63 - k) as u64; let x = w >> s; assert(x & 1 == 0 || x & 1 == 1) by(bit_vector); }
// trim: masking with ~0 << d clears exactly the last d positions of a word
pub proof fn lemma_trimmask(w: u64, d: u64, k: int)
    requires 0 <= d < 64, 0 <= k < 64
    ensures bitw(w & (!0u64 << d), k) == (bitw(w, k) && k < 64 - d)
{
    let s: u64 = (63 - k) as u64;
    assert(((!0u64 << d) >> s) & 1 == (if s >= d { 1u64 } else { 0u64 })) by(bit_vector) requires s < 64, d < 64;
    lemma_wordops(w, !0u64 << d, k);
}
// ---- parity ------------------------------------------------------------------
pub open spec fn odd(n: int) -> bool { n % 2 == 1 }
pub open spec fn wpar(w: u64, k: int) -> bool decreases k { if k <= 0 { false } else { wpar(w, k - 1) != bitw(w, k - 1) } }
pub proof fn lemma_wpar_xor(x: u64, y: u64, k: int) requires 0 <= k <= 64 ensures wpar(x ^ y, k) == (wpar(x, k) != wpar(y, k)) decreases k
{ if k > 0 { lemma_wpar_xor(x, y, k - 1); lemma_wordops(x, y, k - 1); } }
pub proof fn lemma_wpar_zero(k: int) requires 0 <= k <= 64 ensures !wpar(0, k) decreases k
{ if k > 0 { lemma_wpar_zero(k - 1); lemma_wordops(0, 0, k - 1); } }
pub proof fn lemma_wpar_pop(w: u64, k: int)
    requires 1 <= k <= 64
    ensures wpar(w, k) == odd(popcount((w >> ((64 - k) as u64)) as int))
    decreases k
{
    let s: u64 = (64 - k) as u64; let x = w >> s;
    assert((x & 1) as int == x as int % 2) by { assert(x & 1 == x % 2) by(bit_vector); }
    assert((63 - (k - 1)) as u64 == s);
    lemma_getbit(w, k - 1);
    if k == 1 {
        assert(w >> s <= 1) by(bit_vector) requires s == 63;
        assert(popcount(0) == 0); assert(popcount(1) == 1 + popcount(0)); assert(wpar(w, 0) == false); assert(wpar(w, 1) == (wpar(w, 0) != bitw(w, 0)));
    } else {
        lemma_wpar_pop(w, k - 1);
        let s1: u64 = (s + 1) as u64; let y = w >> s1;
        assert(y == x / 2) by { assert(w >> s1 == (w >> s) / 2) by(bit_vector) requires s < 63, s1 == s + 1; }
        assert(popcount(x as int) == x as int % 2 + popcount(x as int / 2)) by { if x == 0 { assert(popcount(0) == 0); } }
    }
}
pub proof fn lemma_pop_split(q: int, r: int, j: nat) requires q >= 0, 0 <= r < p2(j) ensures popcount(q * p2(j) + r) == popcount(q) + popcount(r) decreases j
{
    if j == 0 { assert(q * 1 == q); assert(p2(0) == 1); } else {
        let h = p2((j - 1) as nat);
        assert(p2(j) == 2 * h);
        lemma_pop_split(q, r / 2, (j - 1) as nat);
        let n = q * p2(j) + r;
        assert(n == 2 * (q * h) + r) by(nonlinear_arith) requires n == q * p2(j) + r, p2(j) == 2 * h;
        assert(q * h >= 0) by(nonlinear_arith) requires q >= 0, h >= 0;
        assert(n / 2 == q * h + r / 2); assert(n % 2 == r % 2);
        assert(popcount(n) == n % 2 + popcount(n / 2));
        assert(popcount(r) == r % 2 + popcount(r / 2)) by { if r == 0 { assert(popcount(0) == 0); } }
    }
}
pub proof fn lemma_bytes_pop(w: u64, s: Seq<u8>, k: int)
    requires 0 <= k <= 8, s.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] s[i] == byte_of_u64(w, i)
    ensures ones_upto(s, k) == (if k == 8 { popcount(w as int) } else { popcount((w & (((1u64 << ((8 * k) as u64)) - 1) as u64)) as int) })
    decreases k
{
    if k == 0 {
        assert(w & (((1u64 << 0u64) - 1) as u64) == 0) by(bit_vector);
        assert(popcount(0) == 0);
    } else {
        lemma_bytes_pop(w, s, k - 1);
        let t: u64 = (8 * (k - 1)) as u64;
        let lo = w & (((1u64 << t) - 1) as u64);
        let b = (w >> t) & 0xff;
        assert(s[k - 1] == b as u8);
        assert(b <= 0xff) by(bit_vector) requires b == (w >> t) & 0xff;
        let t8: u64 = (8 * k) as u64;
        let hi: u64 = if k == 8 { w } else { w & (((1u64 << t8) - 1) as u64) };
        if k < 8 {
            assert((w & (((1u64 << t8) - 1) as u64)) == add(mul((w >> t) & 0xff, 1u64 << t), w & (((1u64 << t) - 1) as u64))) by(bit_vector) requires t8 == t + 8, t8 <= 56;
        } else {
            assert(w == add(mul((w >> t) & 0xff, 1u64 << t), w & (((1u64 << t) - 1) as u64))) by(bit_vector) requires t == 56;
        }
        lemma_p2_pow2(t as nat); 
        lemma_p2_all();
        assert(p2(t as nat) <= 72057594037927936) by { lemma_p2_mono(t as nat, 56); }
        assert(1 * vstd::arithmetic::power2::pow2(t as nat) <= u64::MAX);
        vstd::bits::lemma_u64_shl_is_mul(1, t);
        assert((1u64 << t) as int == p2(t as nat));
        assert(lo < p2(t as nat)) by { assert((w & (((1u64 << t) - 1) as u64)) < (1u64 << t)) by(bit_vector) requires t <= 56; }
        assert(b as int * p2(t as nat) as int <= 0xff * 72057594037927936) by(nonlinear_arith) requires b <= 0xff, p2(t as nat) <= 72057594037927936;
        assert(b as int * p2(t as nat) + lo as int == hi as int) by {
            assert(mul(b, 1u64 << t) as int == b as int * p2(t as nat)) by { assert(b as int * p2(t as nat) >= 0) by(nonlinear_arith); }
        }
        lemma_pop_split(b as int, lo as int, t as nat);
        assert(ones_upto(s, k) == ones_upto(s, k - 1) + popcount(s[k - 1] as int));
    }
}
pub proof fn lemma_parity_bytes(w: u64, s: Seq<u8>)
    requires s.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] s[i] == byte_of_u64(w, i)
    ensures wpar(w, 64) == odd(ones_upto(s, 8)), 0 <= ones_upto(s, 8) <= 64
{
    lemma_bytes_pop(w, s, 8); lemma_wpar_pop(w, 64);
    assert(w >> 0 == w) by(bit_vector);
    lemma_ones_bound_all(s, 8);
}
pub proof fn lemma_popmax(n: int, j: nat) requires 0 <= n < p2(j) ensures 0 <= popcount(n) <= j decreases j
{ if j == 0 { assert(n == 0); } else { if n > 0 { lemma_popmax(n / 2, (j - 1) as nat); } } }
pub proof fn lemma_ones_bound_all(s: Seq<u8>, k: int) requires 0 <= k <= s.len() ensures 0 <= ones_upto(s, k) <= 8 * k decreases k
{ if k > 0 { lemma_ones_bound_all(s, k - 1); lemma_p2_all(); lemma_popmax(s[k - 1] as int, 8); } }
// xor of the word products over the first n words
pub open spec fn wdot(a: Seq<u64>, b: Seq<u64>, n: int) -> u64 decreases n { if n <= 0 { 0 } else { wdot(a, b, n - 1) ^ (a[n - 1] & b[n - 1]) } }
// ---- leader ------------------------------------------------------------------
pub proof fn lemma_msb_bit(w: u64, r: int)
    requires is_msb(r, w as int), 0 <= r < 64
    ensures bitw(w, 63 - r), forall|k: int| 0 <= k < 63 - r ==> !#[trigger] bitw(w, k)
{
    let s: u64 = r as u64;
    lemma_p2_pow2(r as nat); vstd::bits::lemma_u64_shr_is_div(w, s);
    let p = p2(r as nat) as int;
    assert(w as int / p == 1) by(nonlinear_arith) requires p <= w as int, (w as int) < 2 * p, p > 0;
    assert(w >> s == 1);
    assert((63 - (63 - r)) as u64 == s);
    assert(1u64 & 1 == 1) by(bit_vector);
    assert forall|k: int| 0 <= k < 63 - r implies !#[trigger] bitw(w, k) by {
        let t: u64 = (63 - k) as u64;
        assert(w >> t == 0) by(bit_vector) requires w >> s == 1, t > s, t < 64;
        assert(0u64 & 1 == 0) by(bit_vector);
    }
}
pub proof fn lemma_and1(x: i32) ensures (x & 1) as int == (x as int) % 2, (x & 1) == 0 || (x & 1) == 1
{ assert((x & 1) == 0 || (x & 1) == 1) by(bit_vector); assert(((x & 1) == 1) == (x % 2 == 1 || x % 2 == -1)) by(bit_vector);  }
pub proof fn lemma_nwbits(n: i32) requires n <= bvmax() ensures n > 0 ==> ((n as u64 + 64 - 1) as u64) >> 6 == nw(n as int), n > 0 ==> nw(n as int) <= 0x1ff_ffff
{ if n > 0 { let x = (n as u64 + 63) as u64; assert(x >> 6 == x / 64) by(bit_vector); } }
pub proof fn lemma_top1(x: i64) requires x == 1i64 << 63u32 ensures x as int == -0x8000_0000_0000_0000, (1u64 << 63u64) as int == 0x8000_0000_0000_0000
{ assert(1i64 << 63u32 == -0x8000_0000_0000_0000i64) by(bit_vector); assert(1u64 << 63u64 == 0x8000_0000_0000_0000u64) by(bit_vector); }
pub proof fn lemma_i32_shl6(x: i32) ensures 0 <= x <= 0x1ff_ffff ==> (x << 6) as int == 64 * x as int, p2(6) == 64
{ lemma_p2_all(); if 0 <= x <= 0x1ff_ffff { assert(x << 6 == 64 * x) by(bit_vector) requires 0 <= x <= 0x1ff_ffff; } }
pub proof fn lemma_parity_all(w: u64, c: int)
    requires exists|s: Seq<u8>| s.len() == 8 && (forall|i: int| 0 <= i < 8 ==> #[trigger] s[i] == byte_of_u64(w, i)) && c == #[trigger] ones_upto(s, 8)
    ensures wpar(w, 64) == odd(c), 0 <= c <= 64
{
    let s = choose|s: Seq<u8>| s.len() == 8 && (forall|i: int| 0 <= i < 8 ==> #[trigger] s[i] == byte_of_u64(w, i)) && c == #[trigger] ones_upto(s, 8);
    lemma_parity_bytes(w, s);
}
pub proof fn lemma_top1x() ensures (1i64 << 63u32) as int == -0x8000_0000_0000_0000, (1u64 << 63u64) as int == 0x8000_0000_0000_0000
{ lemma_top1(1i64 << 63u32); }

