// ---- the vector object ------------------------------------------------------
pub open spec fn bv(v: bit_vector_t, i: int) -> bool { vb(v.words.v@, i) }
pub open spec fn bvok(v: bit_vector_t) -> bool {
    &&& 0 <= v.num_bits <= bvmax() && v.num_words == nw(v.num_bits as int) && !(v.words.st is Dead)
    &&& (v.num_bits > 0 ==> v.words.st is Live) && v.words.v@.len() >= v.num_words
    &&& (forall|i: int| v.num_bits <= i < 64 * v.num_words ==> !#[trigger] bv(v, i))
}
pub open spec fn bvsame(a: bit_vector_t, b: bit_vector_t) -> bool {
    a.num_bits == b.num_bits && forall|i: int| 0 <= i < a.num_bits ==> #[trigger] bv(a, i) == bv(b, i)
}
pub open spec fn bvzero(a: bit_vector_t) -> bool { forall|i: int| 0 <= i < a.num_bits ==> !#[trigger] bv(a, i) }
// dot product of the first n positions
pub open spec fn dotp(a: bit_vector_t, b: bit_vector_t, n: int) -> bool decreases n { if n <= 0 { false } else { dotp(a, b, n - 1) != (bv(a, n - 1) && bv(b, n - 1)) } }

// equal words up to num_words <=> equal bits (both padded with zeros)
pub proof fn lemma_eq_words(a: bit_vector_t, b: bit_vector_t)
    requires bvok(a), bvok(b), a.num_bits == b.num_bits, bvsame(a, b)
    ensures forall|j: int| 0 <= j < a.num_words ==> #[trigger] a.words.v@[j] == b.words.v@[j]
{
    lemma_nw(a.num_bits as int);
    assert forall|j: int| 0 <= j < a.num_words implies #[trigger] a.words.v@[j] == b.words.v@[j] by {
        let x = a.words.v@[j]; let y = b.words.v@[j];
        assert forall|k: int| 0 <= k < 64 implies bitw(x, k) == #[trigger] bitw(y, k) by {
            let i = 64 * j + k;
            assert(i / 64 == j && i % 64 == k);
            assert(bv(a, i) == bitw(x, k)); assert(bv(b, i) == bitw(y, k));
            if i < a.num_bits { assert(bv(a, i) == bv(b, i)); } else { assert(!bv(a, i)); assert(!bv(b, i)); }
        }
        lemma_word_eq(x, y);
    }
}
pub proof fn lemma_words_bits(a: bit_vector_t, b: bit_vector_t, n: int)
    requires forall|j: int| 0 <= j < n ==> #[trigger] a.words.v@[j] == b.words.v@[j]
    ensures forall|i: int| 0 <= i < 64 * n ==> #[trigger] bv(a, i) == bv(b, i)
{
    assert forall|i: int| 0 <= i < 64 * n implies #[trigger] bv(a, i) == bv(b, i) by { lemma_widx(i, n); assert(a.words.v@[i / 64] == b.words.v@[i / 64]); }
}
pub proof fn lemma_words_zero(a: bit_vector_t, n: int)
    requires forall|j: int| 0 <= j < n ==> #[trigger] a.words.v@[j] == 0
    ensures forall|i: int| 0 <= i < 64 * n ==> !#[trigger] bv(a, i)
{
    assert forall|i: int| 0 <= i < 64 * n implies !#[trigger] bv(a, i) by { lemma_widx(i, n); assert(a.words.v@[i / 64] == 0); lemma_wordops(0, 0, i % 64); }
}
pub proof fn lemma_words_fill(a: bit_vector_t, n: int, f: u64, one: bool)
    requires forall|j: int| 0 <= j < n ==> #[trigger] a.words.v@[j] == f, f == (if one { !0u64 } else { 0u64 })
    ensures forall|i: int| 0 <= i < 64 * n ==> #[trigger] bv(a, i) == one
{
    assert forall|i: int| 0 <= i < 64 * n implies #[trigger] bv(a, i) == one by { lemma_widx(i, n); assert(a.words.v@[i / 64] == f); lemma_wordops(0, 0, i % 64); }
}
pub proof fn lemma_words_xor(r: bit_vector_t, a: bit_vector_t, b: bit_vector_t, n: int)
    requires forall|j: int| 0 <= j < n ==> #[trigger] r.words.v@[j] == a.words.v@[j] ^ b.words.v@[j]
    ensures forall|i: int| 0 <= i < 64 * n ==> #[trigger] bv(r, i) == (bv(a, i) != bv(b, i))
{
    assert forall|i: int| 0 <= i < 64 * n implies #[trigger] bv(r, i) == (bv(a, i) != bv(b, i)) by { lemma_widx(i, n); assert(r.words.v@[i / 64] == a.words.v@[i / 64] ^ b.words.v@[i / 64]); lemma_wordops(a.words.v@[i / 64], b.words.v@[i / 64], i % 64); }
}
pub proof fn lemma_words_and(r: bit_vector_t, a: bit_vector_t, b: bit_vector_t, n: int)
    requires forall|j: int| 0 <= j < n ==> #[trigger] r.words.v@[j] == a.words.v@[j] & b.words.v@[j]
    ensures forall|i: int| 0 <= i < 64 * n ==> #[trigger] bv(r, i) == (bv(a, i) && bv(b, i))
{
    assert forall|i: int| 0 <= i < 64 * n implies #[trigger] bv(r, i) == (bv(a, i) && bv(b, i)) by { lemma_widx(i, n); assert(r.words.v@[i / 64] == a.words.v@[i / 64] & b.words.v@[i / 64]); lemma_wordops(a.words.v@[i / 64], b.words.v@[i / 64], i % 64); }
}
// the xor of padded vectors is padded, and so on: from word facts to a well-formed result
pub proof fn lemma_pad_xor(r: bit_vector_t, a: bit_vector_t, b: bit_vector_t)
    requires bvok(a), bvok(b), a.num_bits == b.num_bits, r.num_bits == a.num_bits, r.num_words == a.num_words, (r.num_bits > 0 ==> r.words.st is Live), !(r.words.st is Dead), r.words.v@.len() >= r.num_words,
        forall|j: int| 0 <= j < r.num_words ==> #[trigger] r.words.v@[j] == a.words.v@[j] ^ b.words.v@[j]
    ensures bvok(r), forall|i: int| 0 <= i < r.num_bits ==> #[trigger] bv(r, i) == (bv(a, i) != bv(b, i))
{
    lemma_nw(a.num_bits as int); lemma_words_xor(r, a, b, r.num_words as int);
    assert forall|i: int| r.num_bits <= i < 64 * r.num_words implies !#[trigger] bv(r, i) by { assert(!bv(a, i)); assert(!bv(b, i)); }
}
pub proof fn lemma_pad_and(r: bit_vector_t, a: bit_vector_t, b: bit_vector_t)
    requires bvok(a), bvok(b), a.num_bits == b.num_bits, r.num_bits == a.num_bits, r.num_words == a.num_words, (r.num_bits > 0 ==> r.words.st is Live), !(r.words.st is Dead), r.words.v@.len() >= r.num_words,
        forall|j: int| 0 <= j < r.num_words ==> #[trigger] r.words.v@[j] == a.words.v@[j] & b.words.v@[j]
    ensures bvok(r), forall|i: int| 0 <= i < r.num_bits ==> #[trigger] bv(r, i) == (bv(a, i) && bv(b, i))
{
    lemma_nw(a.num_bits as int); lemma_words_and(r, a, b, r.num_words as int);
    assert forall|i: int| r.num_bits <= i < 64 * r.num_words implies !#[trigger] bv(r, i) by { assert(!bv(a, i)); }
}
pub proof fn lemma_pad_copy(r: bit_vector_t, a: bit_vector_t)
    requires bvok(a), r.num_bits == a.num_bits, r.num_words == a.num_words, (r.num_bits > 0 ==> r.words.st is Live), !(r.words.st is Dead), r.words.v@.len() >= r.num_words,
        forall|j: int| 0 <= j < r.num_words ==> #[trigger] r.words.v@[j] == a.words.v@[j]
    ensures bvok(r), bvsame(r, a)
{
    lemma_nw(a.num_bits as int); lemma_words_bits(r, a, r.num_words as int);
    assert forall|i: int| r.num_bits <= i < 64 * r.num_words implies !#[trigger] bv(r, i) by { assert(!bv(a, i)); }
}
pub proof fn lemma_bit_update(o: bit_vector_t, n: bit_vector_t, ix: int, op: int)
    requires bvok(o), 0 <= ix < o.num_bits, n.num_bits == o.num_bits, n.num_words == o.num_words, n.words.st == o.words.st,
        ({ let w = o.words.v@[ix / 64]; let m = 1u64 << ((63 - ix % 64) as u64); n.words.v@ == o.words.v@.update(ix / 64, if op == 1 { w | m } else if op == 0 { w & !m } else { w ^ m }) })
    ensures bvok(n), bv(n, ix) == (if op == 1 { true } else if op == 0 { false } else { !bv(o, ix) }),
        forall|i: int| 0 <= i < n.num_bits && i != ix ==> #[trigger] bv(n, i) == bv(o, i)
{
    lemma_nw(o.num_bits as int); lemma_widx(ix, o.num_words as int);
    assert forall|i: int| 0 <= i < 64 * o.num_words implies #[trigger] bv(n, i) == (if i != ix { bv(o, i) } else if op == 1 { true } else if op == 0 { false } else { !bv(o, ix) }) by {
        lemma_widx(i, o.num_words as int);
        if i / 64 == ix / 64 { lemma_onebit(o.words.v@[ix / 64], ix % 64, i % 64); assert((i == ix) == (i % 64 == ix % 64)); }
    }
    assert forall|i: int| n.num_bits <= i < 64 * n.num_words implies !#[trigger] bv(n, i) by { assert(!bv(o, i)); }
}
pub proof fn lemma_trim(o: bit_vector_t, n: bit_vector_t, d: u64)
    requires 0 <= o.num_bits <= bvmax(), o.num_words == nw(o.num_bits as int), o.words.v@.len() >= o.num_words, n.num_bits == o.num_bits, n.num_words == o.num_words,
        d == 64 * o.num_words - o.num_bits,
        d == 0 ==> n.words.v@ == o.words.v@, d > 0 ==> n.words.v@ == o.words.v@.update(o.num_words - 1, o.words.v@[o.num_words - 1] & (0xffff_ffff_ffff_ffffu64 << d))
    ensures forall|i: int| 0 <= i < n.num_bits ==> #[trigger] bv(n, i) == bv(o, i), forall|i: int| n.num_bits <= i < 64 * n.num_words ==> !#[trigger] bv(n, i)
{
    lemma_nw(o.num_bits as int); assert(!0u64 == 0xffff_ffff_ffff_ffffu64) by(bit_vector);
    assert forall|i: int| 0 <= i < 64 * n.num_words implies #[trigger] bv(n, i) == (bv(o, i) && i < n.num_bits) by {
        lemma_widx(i, n.num_words as int);
        if d > 0 && i / 64 == o.num_words - 1 { lemma_trimmask(o.words.v@[o.num_words - 1], d, i % 64); }
    }
}
pub proof fn lemma_wdot_word(a: bit_vector_t, b: bit_vector_t, n: int, k: int)
    requires 0 <= n, 0 <= k <= 64
    ensures dotp(a, b, 64 * n + k) == (dotp(a, b, 64 * n) != wpar(a.words.v@[n] & b.words.v@[n], k))
    decreases k
{
    if k > 0 {
        lemma_wdot_word(a, b, n, k - 1);
        let i = 64 * n + k - 1;
        assert(i / 64 == n && i % 64 == k - 1);
        lemma_wordops(a.words.v@[n], b.words.v@[n], k - 1);
        assert(bv(a, i) == bitw(a.words.v@[n], k - 1)); assert(bv(b, i) == bitw(b.words.v@[n], k - 1));
    }
}
pub proof fn lemma_wdot(a: bit_vector_t, b: bit_vector_t, n: int)
    requires 0 <= n
    ensures wpar(wdot(a.words.v@, b.words.v@, n), 64) == dotp(a, b, 64 * n)
    decreases n
{
    if n == 0 { lemma_wpar_zero(64); } else {
        lemma_wdot(a, b, n - 1);
        lemma_wdot_word(a, b, n - 1, 64);
        lemma_wpar_xor(wdot(a.words.v@, b.words.v@, n - 1), a.words.v@[n - 1] & b.words.v@[n - 1], 64);
    }
}
pub proof fn lemma_dot_pad(a: bit_vector_t, b: bit_vector_t, n: int)
    requires bvok(a), bvok(b), a.num_bits == b.num_bits, a.num_bits <= n <= 64 * a.num_words
    ensures dotp(a, b, n) == dotp(a, b, a.num_bits as int)
    decreases n
{ if n > a.num_bits { lemma_dot_pad(a, b, n - 1); assert(!bv(a, n - 1)); } }
pub proof fn lemma_nonzero_word(a: bit_vector_t)
    requires bvok(a)
    ensures (exists|j: int| 0 <= j < a.num_words && #[trigger] a.words.v@[j] != 0) ==> !bvzero(a)
{
    if exists|j: int| 0 <= j < a.num_words && #[trigger] a.words.v@[j] != 0 {
        let j = choose|j: int| 0 <= j < a.num_words && #[trigger] a.words.v@[j] != 0;
        let k = lemma_word_some(a.words.v@[j]);
        let i = 64 * j + k;
        assert(i / 64 == j && i % 64 == k);
        assert(bv(a, i));
    }
}
pub proof fn lemma_leader(a: bit_vector_t, j: int, r: int)
    requires bvok(a), 0 <= j < a.num_words, a.words.v@[j] != 0, is_msb(r, a.words.v@[j] as int), forall|k: int| 0 <= k < j ==> #[trigger] a.words.v@[k] == 0
    ensures 0 <= r < 64, 0 <= 64 * j + 63 - r < a.num_bits, bv(a, 64 * j + 63 - r), forall|i: int| 0 <= i < 64 * j + 63 - r ==> !#[trigger] bv(a, i), !bvzero(a)
{
    lemma_p2_all();
    if r >= 64 { lemma_p2_mono(64, r as nat); }
    let w = a.words.v@[j];
    lemma_msb_bit(w, r);
    lemma_words_zero(a, j);
    let p = 64 * j + 63 - r;
    assert(p / 64 == j && p % 64 == 63 - r);
    assert(bv(a, p));
    assert forall|i: int| 0 <= i < p implies !#[trigger] bv(a, i) by { if i >= 64 * j { assert(i / 64 == j && i % 64 == i - 64 * j); } }
}
