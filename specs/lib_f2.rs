// ---- binary polynomials packed in 64-bit words, least significant coefficient first
pub open spec fn wb(w: u64, k: int) -> bool { bitw(w, 63 - k) }
pub open spec fn wat(s: Seq<u64>, j: int) -> u64 { if 0 <= j < s.len() { s[j] } else { 0 } }
pub open spec fn f2bit(s: Seq<u64>, k: int) -> bool { k >= 0 && wb(wat(s, k / 64), k % 64) }
pub open spec fn f2p(s: Seq<u64>) -> P { |k: int| if f2bit(s, k) { 1int } else { 0int } }
pub open spec fn f2max() -> int { 0x80_0000 }
// at least one word, no zero word on top
pub open spec fn f2trim(s: Seq<u64>) -> bool { 1 <= s.len() && (s.len() > 1 ==> s[s.len() - 1] != 0) }
pub open spec fn f2ok(s: Seq<u64>) -> bool { f2trim(s) && s.len() <= f2max() }
pub open spec fn f2deg(s: Seq<u64>) -> int { choose|d: int| isdeg(f2p(s), d) }
pub proof fn lemma_f2at(s: Seq<u64>, j: int, b: int) requires 0 <= b < 64, j >= 0 ensures f2bit(s, 64 * j + b) == wb(wat(s, j), b), (64 * j + b) / 64 == j, (64 * j + b) % 64 == b
{ assert((64 * j + b) / 64 == j && (64 * j + b) % 64 == b); }
pub proof fn lemma_wb0(k: int) requires 0 <= k < 64 ensures !wb(0, k), wb(1, k) == (k == 0)
{ lemma_wordops(0, 0, 63 - k); let t: u64 = (63 - (63 - k)) as u64; assert((1u64 >> t) & 1 == (if t == 0 { 1u64 } else { 0u64 })) by(bit_vector) requires t < 64; }
pub proof fn lemma_f2can(s: Seq<u64>) ensures can(f2p(s), 2), dle(f2p(s), 64 * s.len() - 1), s.len() >= 1 ==> pol(f2p(s), 2)
{
    assert forall|k: int| k > 64 * s.len() - 1 implies #[trigger] f2p(s)(k) == 0 by { if k >= 0 { lemma_wb0(k % 64); } }
    if s.len() >= 1 { assert(64 * s.len() - 1 >= 0 && dle(f2p(s), 64 * s.len() - 1)); }
}
pub proof fn lemma_wb_zero(w: u64) requires forall|k: int| 0 <= k < 64 ==> !#[trigger] wb(w, k) ensures w == 0
{ assert forall|k: int| 0 <= k < 64 implies !#[trigger] bitw(w, k) by { assert(!wb(w, 63 - k)); } lemma_word_zero(w); }
pub proof fn lemma_wb_eq(a: u64, b: u64) requires forall|k: int| 0 <= k < 64 ==> #[trigger] wb(a, k) == wb(b, k) ensures a == b
{ assert forall|k: int| 0 <= k < 64 implies bitw(a, k) == #[trigger] bitw(b, k) by { assert(wb(a, 63 - k) == wb(b, 63 - k)); } lemma_word_eq(a, b); }
// words determine the polynomial and conversely
pub proof fn lemma_f2words(a: Seq<u64>, b: Seq<u64>)
    ensures (forall|j: int| j >= 0 ==> #[trigger] wat(a, j) == wat(b, j)) ==> f2p(a) == f2p(b),
        f2p(a) == f2p(b) ==> (forall|j: int| j >= 0 ==> #[trigger] wat(a, j) == wat(b, j)),
{
    if forall|j: int| j >= 0 ==> #[trigger] wat(a, j) == wat(b, j) { assert forall|k: int| #[trigger] f2p(a)(k) == f2p(b)(k) by { if k >= 0 { assert(wat(a, k / 64) == wat(b, k / 64)); } } lemma_peq(f2p(a), f2p(b)); }
    if f2p(a) == f2p(b) { assert forall|j: int| j >= 0 implies #[trigger] wat(a, j) == wat(b, j) by {
        assert forall|k: int| 0 <= k < 64 implies #[trigger] wb(wat(a, j), k) == wb(wat(b, j), k) by { lemma_f2at(a, j, k); lemma_f2at(b, j, k); assert(f2p(a)(64 * j + k) == f2p(b)(64 * j + k)); }
        lemma_wb_eq(wat(a, j), wat(b, j));
    } }
}
pub proof fn lemma_f2canon(a: Seq<u64>, b: Seq<u64>) requires f2ok(a), f2ok(b), f2p(a) == f2p(b) ensures a == b
{
    lemma_f2words(a, b);
    if a.len() < b.len() { let j = b.len() - 1; assert(wat(a, j) == wat(b, j)); } 
    if b.len() < a.len() { let j = a.len() - 1; assert(wat(a, j) == wat(b, j)); }
    assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by { assert(wat(a, j) == wat(b, j)); }
    assert(a =~= b);
}
pub proof fn lemma_f2one(s: Seq<u64>, w: u64) requires s.len() == 1, s[0] == w ensures forall|k: int| #[trigger] f2p(s)(k) == (if 0 <= k < 64 && wb(w, k) { 1int } else { 0int }), f2ok(s)
{ assert forall|k: int| #[trigger] f2p(s)(k) == (if 0 <= k < 64 && wb(w, k) { 1int } else { 0int }) by { if k >= 64 { assert(k / 64 >= 1); lemma_wb0(k % 64); } else if k >= 0 { assert(k / 64 == 0 && k % 64 == k); } } }
pub proof fn lemma_f2small(s: Seq<u64>, w: u64, c2: int, c1: int, c0: int)
    requires s.len() == 1, s[0] == w, w as int == 4 * c2 + 2 * c1 + c0, 0 <= c2 <= 1, 0 <= c1 <= 1, 0 <= c0 <= 1
    ensures forall|k: int| #[trigger] f2p(s)(k) == (if k == 0 { c0 } else if k == 1 { c1 } else if k == 2 { c2 } else { 0int }), f2ok(s)
{
    lemma_f2one(s, w);
    assert forall|k: int| #[trigger] f2p(s)(k) == (if k == 0 { c0 } else if k == 1 { c1 } else if k == 2 { c2 } else { 0int }) by {
        if 0 <= k < 64 { let t: u64 = (63 - (63 - k)) as u64;
            assert(((w >> t) & 1 == 1) == ((t == 0 && (w == 1 || w == 3 || w == 5 || w == 7)) || (t == 1 && (w == 2 || w == 3 || w == 6 || w == 7)) || (t == 2 && w >= 4))) by(bit_vector) requires w < 8, t < 64; }
    }
}
pub proof fn lemma_f2xor(r: Seq<u64>, a: Seq<u64>, b: Seq<u64>)
    requires forall|j: int| j >= 0 ==> #[trigger] wat(r, j) == wat(a, j) ^ wat(b, j)
    ensures f2p(r) == padd(f2p(a), f2p(b), 2), f2p(r) == psub(f2p(a), f2p(b), 2)
{
    assert forall|k: int| #[trigger] f2p(r)(k) == padd(f2p(a), f2p(b), 2)(k) && f2p(r)(k) == psub(f2p(a), f2p(b), 2)(k) by { if k >= 0 { assert(wat(r, k / 64) == wat(a, k / 64) ^ wat(b, k / 64)); lemma_wordops(wat(a, k / 64), wat(b, k / 64), 63 - k % 64); } }
    assert forall|k: int| #[trigger] f2p(r)(k) == psub(f2p(a), f2p(b), 2)(k) by { assert(f2p(r)(k) == padd(f2p(a), f2p(b), 2)(k)); }
    lemma_peq(f2p(r), padd(f2p(a), f2p(b), 2)); lemma_peq(f2p(r), psub(f2p(a), f2p(b), 2));
}
pub proof fn lemma_f2xor0(x: u64) ensures x ^ 0 == x, 0 ^ x == x, x ^ x == 0 { assert(x ^ 0 == x && 0 ^ x == x && x ^ x == 0) by(bit_vector); }
// degree from the top nonzero word
pub proof fn lemma_f2degw(s: Seq<u64>, i: int, r: int)
    requires 0 <= i < s.len(), s[i] != 0, is_msb(r, s[i] as int), r < 64, forall|j: int| i < j < s.len() ==> #[trigger] s[j] == 0
    ensures isdeg(f2p(s), 64 * i + r), 0 <= r < 64, f2p(s)(64 * i + r) == 1
{
    let w = s[i];
    lemma_msb_bit(w, r);
    lemma_f2at(s, i, r);
    assert(wat(s, i) == w);
    assert forall|k: int| k > 64 * i + r implies #[trigger] f2p(s)(k) == 0 by {
        if k / 64 == i { assert(k % 64 > r); assert(!bitw(w, 63 - k % 64)); } else { assert(k / 64 > i); assert(wat(s, k / 64) == 0); lemma_wb0(k % 64); }
    }
}
pub proof fn lemma_f2zero(s: Seq<u64>) requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == 0 ensures f2p(s) == pz(), isdeg(f2p(s), 0)
{
    assert forall|k: int| #[trigger] f2p(s)(k) == pz()(k) by { if k >= 0 { assert(wat(s, k / 64) == 0); lemma_wb0(k % 64); } }
    lemma_peq(f2p(s), pz());
}
// what find_degree tells about the words
pub proof fn lemma_f2deg_words(s: Seq<u64>, d: int)
    requires s.len() >= 1, isdeg(f2p(s), d)
    ensures d < 64 * s.len(), d / 64 < s.len(), forall|j: int| d / 64 < j < s.len() ==> #[trigger] s[j] == 0, d >= 64 ==> s[d / 64] != 0, (s.len() > 1 && s[s.len() - 1] != 0) ==> d / 64 == s.len() - 1,
        d == 0 ==> (f2p(s) == pz() <==> s[0] == 0), d > 0 ==> f2p(s) != pz(), d == 0 ==> (s[0] == 0 || s[0] == 1), (s.len() == 1 || s[s.len() - 1] != 0) ==> d >= 64 * (s.len() - 1), d == 0 && s[0] == 1 ==> f2p(s) == pc(1)
{
    lemma_f2can(s);
    if d > 0 && d >= 64 * s.len() { assert(f2p(s)(d) == 0); }
    assert forall|j: int| d / 64 < j < s.len() implies #[trigger] s[j] == 0 by {
        assert forall|k: int| 0 <= k < 64 implies !#[trigger] wb(s[j], k) by { lemma_f2at(s, j, k); assert(f2p(s)(64 * j + k) == 0); }
        lemma_wb_zero(s[j]);
    }
    if d >= 64 { if s[d / 64] == 0 { lemma_wb0(d % 64); assert(f2p(s)(d) == 0); } }
    if d > 0 { assert(f2p(s)(d) != pz()(d)); }
    if d == 0 {
        assert forall|k: int| 1 <= k < 64 implies !#[trigger] wb(s[0], k) by { lemma_f2at(s, 0, k); assert(f2p(s)(k) == 0); }
        if wb(s[0], 0) { assert forall|k: int| 0 <= k < 64 implies #[trigger] wb(s[0], k) == wb(1, k) by { lemma_wb0(k); } lemma_wb_eq(s[0], 1); }
        else { lemma_wb_zero(s[0]); }
        lemma_f2at(s, 0, 0); lemma_wb0(0); 
        assert(f2p(s)(0) == (if s[0] == 1 { 1int } else { 0int }));
        if s[0] == 0 { assert forall|k: int| #[trigger] f2p(s)(k) == pz()(k) by {} lemma_peq(f2p(s), pz()); } else { assert(f2p(s)(0) != pz()(0)); assert forall|k: int| #[trigger] f2p(s)(k) == pc(1)(k) by {} lemma_peq(f2p(s), pc(1)); }
    }
}
pub proof fn lemma_f2deg_ex(s: Seq<u64>, n: int) requires dle(f2p(s), n), n >= -1 ensures exists|d: int| isdeg(f2p(s), d) && d <= (if n >= 0 { n } else { 0 }) decreases n + 1
{ if n <= 0 { assert(isdeg(f2p(s), 0)); } else if f2p(s)(n) != 0 { assert(isdeg(f2p(s), n)); } else { assert forall|k: int| k > n - 1 implies #[trigger] f2p(s)(k) == 0 by { if k > n { } else { assert(k == n); } } lemma_f2deg_ex(s, n - 1); } }
// dropping or adding zero words on top
pub proof fn lemma_f2trunc(r: Seq<u64>, s: Seq<u64>, n: int)
    requires n == r.len(), forall|j: int| 0 <= j < n ==> #[trigger] r[j] == wat(s, j), forall|j: int| n <= j < s.len() ==> #[trigger] s[j] == 0
    ensures f2p(r) == f2p(s)
{
    assert forall|j: int| j >= 0 implies #[trigger] wat(r, j) == wat(s, j) by { if j < n { assert(r[j] == wat(s, j)); } else if j < s.len() { assert(s[j] == 0); } }
    lemma_f2words(r, s);
}
// ---- shifts
pub open spec fn shw(o: Seq<u64>, j: int, q: int, s: int) -> u64 { if s == 0 { wat(o, j - q) } else { (wat(o, j - q) << (s as u64)) | (wat(o, j - q - 1) >> ((64 - s) as u64)) } }
pub proof fn lemma_wshl(x: u64, y: u64, s: int, k: int)
    requires 0 < s < 64, 0 <= k < 64
    ensures wb((x << (s as u64)) | (y >> ((64 - s) as u64)), k) == (if k >= s { wb(x, k - s) } else { wb(y, 64 + k - s) })
{
    let a: u64 = s as u64; let b: u64 = (64 - s) as u64; let t: u64 = (63 - (63 - k)) as u64;
    if k >= s { let u: u64 = (63 - (63 - (k - s))) as u64; assert((((x << a) | (y >> b)) >> t) & 1 == (x >> u) & 1) by(bit_vector) requires 0 < a, a < 64, b == 64 - a, t < 64, t >= a, u == t - a; }
    else { let u: u64 = (63 - (63 - (64 + k - s))) as u64; assert((((x << a) | (y >> b)) >> t) & 1 == (y >> u) & 1) by(bit_vector) requires 0 < a, a < 64, b == 64 - a, t < a, u == 64 + t - a; }
}
pub proof fn lemma_f2shl(r: Seq<u64>, o: Seq<u64>, q: int, s: int)
    requires q >= 0, 0 <= s < 64, forall|j: int| j >= 0 ==> #[trigger] wat(r, j) == shw(o, j, q, s)
    ensures forall|k: int| #[trigger] f2p(r)(k) == f2p(o)(k - (64 * q + s)), f2p(r) == pmul(pxk(64 * q + s), f2p(o), 2)
{
    assert forall|k: int| #[trigger] f2p(r)(k) == f2p(o)(k - (64 * q + s)) by {
        if k >= 0 {
            let j = k / 64; let b = k % 64; let m = k - (64 * q + s);
            assert(wat(r, j) == shw(o, j, q, s));
            if s == 0 { assert(m == 64 * (j - q) + b); if j >= q { lemma_f2at(o, j - q, b); } else { lemma_wb0(b); } }
            else {
                lemma_wshl(wat(o, j - q), wat(o, j - q - 1), s, b);
                if b >= s { assert(m == 64 * (j - q) + (b - s)); if j >= q { lemma_f2at(o, j - q, b - s); } else { lemma_wb0(b - s); } }
                else { assert(m == 64 * (j - q - 1) + (64 + b - s)); if j - 1 >= q { lemma_f2at(o, j - q - 1, 64 + b - s); } else { lemma_wb0(64 + b - s); } }
            }
        }
    }
    lemma_f2can(o);
    lemma_pmul_xk(64 * q + s, f2p(o), 2);
    assert forall|k: int| #[trigger] f2p(r)(k) == pmul(pxk(64 * q + s), f2p(o), 2)(k) by { assert(f2p(r)(k) == f2p(o)(k - (64 * q + s))); }
    lemma_peq(f2p(r), pmul(pxk(64 * q + s), f2p(o), 2));
}
pub proof fn lemma_f2shr(r: Seq<u64>, o: Seq<u64>)
    requires forall|j: int| j >= 0 ==> #[trigger] wat(r, j) == (wat(o, j) >> 1u64) | (wat(o, j + 1) << 63u64)
    ensures forall|k: int| #[trigger] f2p(r)(k) == (if k >= 0 { f2p(o)(k + 1) } else { 0 })
{
    assert forall|k: int| #[trigger] f2p(r)(k) == (if k >= 0 { f2p(o)(k + 1) } else { 0 }) by {
        if k >= 0 {
            let j = k / 64; let b = k % 64; let x = wat(o, j + 1); let y = wat(o, j);
            assert(wat(r, j) == (y >> 1u64) | (x << 63u64));
            assert((y >> 1u64) | (x << 63u64) == (x << 63u64) | (y >> 1u64)) by(bit_vector);
            assert((63int as u64) == 63u64 && ((64 - 63) as u64) == 1u64);
            lemma_wshl(x, y, 63, b);
            if b >= 63 { assert(k + 1 == 64 * (j + 1) + 0); lemma_f2at(o, j + 1, 0); } else { assert(k + 1 == 64 * j + (b + 1)); lemma_f2at(o, j, b + 1); }
        }
    }
}
pub proof fn lemma_c01(c: i32) ensures (c & 1) == 0 || (c & 1) == 1, (c & 1) as int == (c as int) % 2 { lemma_and1(c); }
pub proof fn lemma_c2(c2: i32, c1: i32, c0: i32)
    ensures ({ let v = (((c2 & 1) << 2u32) | ((c1 & 1) << 1u32)) | (c0 & 1); 0 <= v < 8 && v as int == 4 * (c2 as int % 2) + 2 * (c1 as int % 2) + (c0 as int % 2) }),
        ({ let v = ((c1 & 1) << 1u32) | (c0 & 1); 0 <= v < 4 && v as int == 2 * (c1 as int % 2) + (c0 as int % 2) })
{
    lemma_and1(c2); lemma_and1(c1); lemma_and1(c0);
    let a = c2 & 1; let b = c1 & 1; let c = c0 & 1;
    assert(((a << 2u32) | (b << 1u32)) | c == add(add(mul(4, a), mul(2, b)), c)) by(bit_vector) requires 0 <= a <= 1, 0 <= b <= 1, 0 <= c <= 1;
    assert((b << 1u32) | c == add(mul(2, b), c)) by(bit_vector) requires 0 <= b <= 1, 0 <= c <= 1;
}
pub open spec fn pcof(c2: int, c1: int, c0: int) -> P { |k: int| if k == 0 { c0 % 2 } else if k == 1 { c1 % 2 } else if k == 2 { c2 % 2 } else { 0int } }
pub proof fn lemma_pcof(s: Seq<u64>, w: u64, c2: int, c1: int, c0: int)
    requires s.len() == 1, s[0] == w, w as int == 4 * (c2 % 2) + 2 * (c1 % 2) + c0 % 2
    ensures f2p(s) == pcof(c2, c1, c0), f2ok(s), (c2 == 0 && c1 == 0) ==> f2p(s) == pc(c0 % 2)
{
    lemma_f2small(s, w, c2 % 2, c1 % 2, c0 % 2);
    assert forall|k: int| #[trigger] f2p(s)(k) == pcof(c2, c1, c0)(k) by {}
    lemma_peq(f2p(s), pcof(c2, c1, c0));
    if c2 == 0 && c1 == 0 { assert forall|k: int| #[trigger] f2p(s)(k) == pc(c0 % 2)(k) by {} lemma_peq(f2p(s), pc(c0 % 2)); }
}
pub proof fn lemma_shl6(i: u64) ensures i < 0x200_0000 ==> (i << 6u64) == 64 * i, p2(6) == 64 { lemma_p2_all(); if i < 0x200_0000 { assert(i << 6u64 == mul(i, 64)) by(bit_vector) requires i < 0x200_0000; } }
pub proof fn lemma_sh6i(d: i32) ensures d >= 0 ==> (d >> 6u32) as int == d as int / 64, d < 0 ==> (d >> 6u32) < 0, p2(6) == 64
{ lemma_p2_all(); if d >= 0 { assert((d >> 6u32) == d / 64) by(bit_vector) requires d >= 0; } else { assert((d >> 6u32) < 0) by(bit_vector) requires d < 0; } }
pub proof fn lemma_posmask(p: u64) ensures (p & 63) == p % 64, 0 <= (p & 63) < 64 { assert((p & 63) == p % 64) by(bit_vector); }
pub proof fn lemma_f2neg(s: Seq<u64>) ensures f2p(s) == pneg(f2p(s), 2) { assert forall|k: int| #[trigger] f2p(s)(k) == pneg(f2p(s), 2)(k) by {} lemma_peq(f2p(s), pneg(f2p(s), 2)); }
pub proof fn lemma_getwb(w: u64, k: int) requires 0 <= k < 64 ensures (w >> (k as u64)) & 1 == (if wb(w, k) { 1u64 } else { 0u64 })
{ let t = (63 - (63 - k)) as u64; assert(t == k as u64); assert((w >> t) & 1 == 0 || (w >> t) & 1 == 1) by(bit_vector); }
pub proof fn lemma_f2setbit(n: Seq<u64>, o: Seq<u64>, p: int)
    requires 0 <= p, p / 64 < n.len(), n.len() == (if o.len() > p / 64 { o.len() as int } else { p / 64 + 1 }), f2trim(o) || p / 64 >= o.len(), n.len() <= f2max(),
        n[p / 64] == wat(o, p / 64) | (1u64 << ((p % 64) as u64)), forall|j: int| 0 <= j < n.len() && j != p / 64 ==> #[trigger] n[j] == wat(o, j)
    ensures f2ok(n), forall|k: int| #[trigger] f2p(n)(k) == (if k == p { 1 } else { f2p(o)(k) })
{
    let m = 1u64 << ((p % 64) as u64);
    assert((63 - (63 - p % 64)) as u64 == (p % 64) as u64);
    assert forall|k: int| #[trigger] f2p(n)(k) == (if k == p { 1 } else { f2p(o)(k) }) by {
        if k >= 0 {
            if k / 64 == p / 64 { lemma_onebit(wat(o, p / 64), 63 - p % 64, 63 - k % 64); }
            else if k / 64 < n.len() { assert(n[k / 64] == wat(o, k / 64)); }
        }
    }
    let w = wat(o, p / 64);
    lemma_onebit(0, 63 - p % 64, 63 - p % 64); lemma_wb0(p % 64);
    assert(wb(0u64 | m, p % 64));
    assert(m != 0) by { if m == 0 { assert(0u64 | 0u64 == 0u64) by(bit_vector); } }
    assert(w | m != 0) by(bit_vector) requires m != 0;
}
pub proof fn lemma_f2clrbit(n: Seq<u64>, o: Seq<u64>, p: int)
    requires 0 <= p, p / 64 < n.len(), n.len() == o.len(), 
        n[p / 64] == wat(o, p / 64) & !(1u64 << ((p % 64) as u64)), forall|j: int| 0 <= j < n.len() && j != p / 64 ==> #[trigger] n[j] == o[j]
    ensures forall|k: int| #[trigger] f2p(n)(k) == (if k == p { 0 } else { f2p(o)(k) })
{
    assert((63 - (63 - p % 64)) as u64 == (p % 64) as u64);
    assert forall|k: int| #[trigger] f2p(n)(k) == (if k == p { 0 } else { f2p(o)(k) }) by {
        if k >= 0 {
            if k / 64 == p / 64 { lemma_onebit(wat(o, p / 64), 63 - p % 64, 63 - k % 64); }
            else if k / 64 < n.len() { assert(n[k / 64] == o[k / 64]); }
        }
    }
}
pub proof fn lemma_f2clrno(o: Seq<u64>, p: int) requires p >= 0 ensures p / 64 >= o.len() ==> f2p(o)(p) == 0 { lemma_wb0(p % 64); }
// parity of the number of ones in the first n words
pub open spec fn f2par(s: Seq<u64>, n: int) -> int decreases n { if n <= 0 { 0 } else if wpar(s[n - 1], 64) { 1 - f2par(s, n - 1) } else { f2par(s, n - 1) } }
pub proof fn lemma_and1f(x: i32) ensures (1 & x) as int == (x as int) % 2 { lemma_and1(x); assert((1 & x) == (x & 1)) by(bit_vector); }

// ---- one-position shifts, general shifts
pub proof fn lemma_shr_zero(w: u64, r: int, c: int)
    requires 0 <= r < c < 64, forall|k: int| r < k < 64 ==> !#[trigger] wb(w, k)
    ensures w >> (c as u64) == 0
{
    let x = w >> (c as u64);
    assert forall|k: int| 0 <= k < 64 implies !#[trigger] wb(x, k) by {
        let t: u64 = (63 - (63 - k)) as u64; let cc: u64 = c as u64;
        if k + c < 64 { assert(!wb(w, k + c)); let u: u64 = (63 - (63 - (k + c))) as u64; assert(((w >> cc) >> t) & 1 == (w >> u) & 1) by(bit_vector) requires t < 64, cc < 64, u < 64, u == t + cc; }
        else { assert(((w >> cc) >> t) & 1 != 1) by(bit_vector) requires t < 64, cc < 64, t + cc >= 64; }
    }
    lemma_wb_zero(x);
}
pub proof fn lemma_shz() ensures forall|x: u64, s: u64| s < 64 ==> #[trigger] (x >> s) | 0u64 == x >> s, forall|x: u64, s: u64| s < 64 ==> 0u64 | #[trigger] (x >> s) == x >> s, forall|x: u64, s: u64| s < 64 ==> #[trigger] (x << s) | 0u64 == x << s, forall|s: u64| s < 64 ==> #[trigger] (0u64 >> s) == 0, forall|s: u64| s < 64 ==> #[trigger] (0u64 << s) == 0
{
    assert forall|x: u64, s: u64| s < 64 implies #[trigger] (x >> s) | 0u64 == x >> s by { let y = x >> s; assert(y | 0u64 == y) by(bit_vector); }
    assert forall|x: u64, s: u64| s < 64 implies 0u64 | #[trigger] (x >> s) == x >> s by { let y = x >> s; assert(0u64 | y == y) by(bit_vector); }
    assert forall|x: u64, s: u64| s < 64 implies #[trigger] (x << s) | 0u64 == x << s by { let y = x << s; assert(y | 0u64 == y) by(bit_vector); }
    assert forall|s: u64| s < 64 implies #[trigger] (0u64 >> s) == 0 by { assert(0u64 >> s == 0) by(bit_vector) requires s < 64; }
    assert forall|s: u64| s < 64 implies #[trigger] (0u64 << s) == 0 by { assert(0u64 << s == 0) by(bit_vector) requires s < 64; }
}
pub proof fn lemma_shz1(x: u64, s: int) requires 0 <= s < 64 ensures (x >> (s as u64)) | 0u64 == x >> (s as u64), 0u64 | (x >> (s as u64)) == x >> (s as u64), (x << (s as u64)) | 0u64 == x << (s as u64), 0u64 >> (s as u64) == 0, 0u64 << (s as u64) == 0, 0u64 | 0u64 == 0
{ let t = s as u64; let y = x >> t; let z = x << t; assert(y | 0u64 == y && 0u64 | y == y && z | 0u64 == z && 0u64 | 0u64 == 0u64) by(bit_vector); assert(0u64 >> t == 0 && 0u64 << t == 0) by(bit_vector) requires t < 64; }
pub proof fn lemma_msbit(w: u64) ensures (w & 0x8000_0000_0000_0000u64 == 0) ==> w >> 63u64 == 0, (w & 0x8000_0000_0000_0000u64 != 0) ==> w >> 63u64 == 1, (w & 0x8000_0000_0000_0000u64 == 0 && w != 0) ==> w << 1u64 != 0
{ assert((w & 0x8000_0000_0000_0000u64 == 0) ==> w >> 63u64 == 0) by(bit_vector); assert((w & 0x8000_0000_0000_0000u64 != 0) ==> w >> 63u64 == 1) by(bit_vector); assert((w & 0x8000_0000_0000_0000u64 == 0 && w != 0) ==> w << 1u64 != 0) by(bit_vector); }
pub proof fn lemma_or_nz(a: u64, b: u64) ensures a != 0 || b != 0 ==> a | b != 0 { assert(a != 0 || b != 0 ==> a | b != 0) by(bit_vector); }
// after _promote_1: o is the word sequence before, r after
pub proof fn lemma_promote1(r: Seq<u64>, o: Seq<u64>)
    requires o.len() >= 1, r.len() == o.len() || r.len() == o.len() + 1, r.len() == o.len() ==> o[o.len() - 1] & 0x8000_0000_0000_0000u64 == 0, r.len() == o.len() + 1 ==> o[o.len() - 1] & 0x8000_0000_0000_0000u64 != 0,
        forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == shw(o, j, 0, 1)
    ensures f2p(r) == pmul(pxk(1), f2p(o), 2), f2trim(o) ==> f2trim(r)
{
    let n = o.len() as int; let t = o[n - 1];
    lemma_msbit(t); 
    assert(((64 - 1) as u64) == 63u64 && (1int as u64) == 1u64);
    assert forall|j: int| j >= 0 implies #[trigger] wat(r, j) == shw(o, j, 0, 1) by {
        if j >= r.len() { lemma_shz1(wat(o, j - 1), 1); lemma_shz1(wat(o, j - 1), 63); if j == n { assert(wat(o, j - 1) == t); } else { assert(wat(o, j - 1) == 0); } }
    }
    lemma_f2shl(r, o, 0, 1);
    if f2trim(o) && r.len() > 1 {
        let m = r.len() - 1;
        assert(r[m] == shw(o, m, 0, 1));
        lemma_or_nz(wat(o, m) << 1u64, wat(o, m - 1) >> 63u64);
    }
}
pub proof fn lemma_demote1(r: Seq<u64>, o: Seq<u64>)
    requires o.len() >= 1, r.len() == o.len(), forall|j: int| 0 <= j < r.len() - 1 ==> #[trigger] r[j] == (o[j] >> 1u64) | (o[j + 1] << 63u64), r[r.len() - 1] == o[r.len() - 1] >> 1u64
    ensures forall|k: int| #[trigger] f2p(r)(k) == (if k >= 0 { f2p(o)(k + 1) } else { 0 }), forall|d: int| #[trigger] dle(f2p(o), d) ==> dle(f2p(r), d - 1)
{
    assert forall|j: int| j >= 0 implies #[trigger] wat(r, j) == (wat(o, j) >> 1u64) | (wat(o, j + 1) << 63u64) by {
        lemma_shz1(wat(o, j), 1); lemma_shz1(wat(o, j), 63);
        if j < r.len() - 1 { assert(r[j] == (o[j] >> 1u64) | (o[j + 1] << 63u64)); } else if j == r.len() - 1 { } else { }
    }
    lemma_f2shr(r, o);
}
// from trimmed words and a degree bound to a length bound
pub proof fn lemma_f2len(s: Seq<u64>, n: int) requires f2trim(s), dle(f2p(s), n), n >= 0 ensures s.len() <= n / 64 + 1
{
    lemma_f2deg_ex(s, n); let d = choose|d: int| isdeg(f2p(s), d) && d <= (if n >= 0 { n } else { 0 });
    lemma_f2deg_words(s, d);
    if s.len() > 1 { assert(d / 64 == s.len() - 1); assert(d / 64 <= n / 64) by(nonlinear_arith) requires d <= n; }
}
// word index facts used by _promote_n
pub proof fn lemma_pn_idx(odeg: int, q: int, s: int)
    requires odeg >= 0, q >= 0, 0 <= s < 64
    ensures (odeg + 64 * q + s) / 64 == odeg / 64 + q + (if odeg % 64 + s >= 64 { 1int } else { 0int })
{ let a = odeg / 64; let b = odeg % 64; assert(odeg == 64 * a + b); if b + s >= 64 { assert((odeg + 64 * q + s) / 64 == a + q + 1); } else { assert((odeg + 64 * q + s) / 64 == a + q); } }
pub proof fn lemma_promoten(r: Seq<u64>, o: Seq<u64>, d: int, q: int, s: int)
    requires f2trim(o), isdeg(f2p(o), d), q >= 0, 0 <= s < 64, r.len() == (d + 64 * q + s) / 64 + 1,
        forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == shw(o, j, q, s)
    ensures f2p(r) == pmul(pxk(64 * q + s), f2p(o), 2), f2p(o) != pz() ==> f2trim(r) && isdeg(f2p(r), d + 64 * q + s)
{
    lemma_f2deg_words(o, d); lemma_pn_idx(d, q, s);
    let n = o.len() as int;
    assert(d / 64 == n - 1);
    assert forall|j: int| j >= 0 implies #[trigger] wat(r, j) == shw(o, j, q, s) by {
        if j >= r.len() && s != 0 {
            lemma_shz1(0, s); lemma_shz1(0, 64 - s);
            assert(wat(o, j - q) == 0);
            if j - q - 1 == n - 1 {
                assert(d % 64 + s < 64);
                assert forall|k: int| d % 64 < k < 64 implies !#[trigger] wb(o[n - 1], k) by { lemma_f2at(o, n - 1, k); assert(f2p(o)(64 * (n - 1) + k) == 0); }
                lemma_shr_zero(o[n - 1], d % 64, 64 - s);
            } else { assert(wat(o, j - q - 1) == 0); }
        }
    }
    lemma_f2shl(r, o, q, s);
    let e = d + 64 * q + s;
    if f2p(o) != pz() {
        if d == 0 && f2p(o)(0) == 0 { assert forall|k: int| #[trigger] f2p(o)(k) == pz()(k) by { } lemma_peq(f2p(o), pz()); }
        assert(f2p(r)(e) == f2p(o)(d));
        assert(dle(f2p(r), e)) by { assert forall|k: int| k > e implies #[trigger] f2p(r)(k) == 0 by {} }
        lemma_f2deg_words(r, e);
    }
}
// ---- multiplication
pub proof fn lemma_ptr_can(b: P, i: int, p: int) requires p > 0, can(b, p) ensures can(ptr(b, i), p), can(pmul(ptr(b, i), b, p), p) { lemma_pmul_can(ptr(b, i), b, p); assert forall|k: int| 0 <= #[trigger] ptr(b, i)(k) < p by { assert(0 <= b(k) < p); } }
pub proof fn lemma_mul_step(a: P, b: P, i: int, o0: P, o1: P, sh: P)
    requires can(a, 2), can(b, 2), i >= 0, o0 == pmul(ptr(b, i), a, 2), sh == pmul(pxk(i), a, 2), b(i) == 1 ==> o1 == padd(o0, sh, 2), b(i) == 0 ==> o1 == o0
    ensures o1 == pmul(ptr(b, i + 1), a, 2)
{
    assert(0 <= b(i) < 2);
    lemma_ptr_can(b, i, 2); lemma_ptr_can(b, i + 1, 2);
    if b(i) == 1 {
        assert forall|k: int| #[trigger] ptr(b, i + 1)(k) == padd(ptr(b, i), pxk(i), 2)(k) by { assert(0 <= b(k) < 2); }
        lemma_peq(ptr(b, i + 1), padd(ptr(b, i), pxk(i), 2));
        lemma_pmul_dist(a, ptr(b, i), pxk(i), 2);
    } else {
        assert forall|k: int| #[trigger] ptr(b, i + 1)(k) == ptr(b, i)(k) by {}
        lemma_peq(ptr(b, i + 1), ptr(b, i));
    }
}
pub proof fn lemma_mul_begin(a: P, b: P, z: P) requires can(a, 2), can(b, 2), z == pz() ensures z == pmul(ptr(b, 0), a, 2), a == pmul(pxk(0), a, 2)
{
    assert forall|k: int| #[trigger] ptr(b, 0)(k) == pz()(k) by {} lemma_peq(ptr(b, 0), pz()); lemma_pmul_zero(a, 2);
    lemma_pmul_xk(0, a, 2); assert forall|k: int| #[trigger] pmul(pxk(0), a, 2)(k) == a(k) by { assert(pmul(pxk(0), a, 2)(k) == a(k - 0)); } lemma_peq(pmul(pxk(0), a, 2), a);
}
pub proof fn lemma_mul_end(a: P, b: P, d: int) requires dle(b, d) ensures pmul(ptr(b, d + 1), a, 2) == pmul(a, b, 2)
{ assert forall|k: int| #[trigger] ptr(b, d + 1)(k) == b(k) by {} lemma_peq(ptr(b, d + 1), b); lemma_pmul_comm(a, b, 2); }
pub proof fn lemma_xk_step(a: P, i: int) requires can(a, 2), i >= 0 ensures pmul(pxk(1), pmul(pxk(i), a, 2), 2) == pmul(pxk(i + 1), a, 2)
{
    lemma_pmul_can(pxk(i), a, 2); lemma_pmul_xk(1, pmul(pxk(i), a, 2), 2); lemma_pmul_xk(i, a, 2); lemma_pmul_xk(i + 1, a, 2);
    assert forall|k: int| #[trigger] pmul(pxk(1), pmul(pxk(i), a, 2), 2)(k) == pmul(pxk(i + 1), a, 2)(k) by { assert(pmul(pxk(i), a, 2)(k - 1) == a(k - 1 - i)); assert(pmul(pxk(i + 1), a, 2)(k) == a(k - (i + 1))); }
    lemma_peq(pmul(pxk(1), pmul(pxk(i), a, 2), 2), pmul(pxk(i + 1), a, 2));
}
// the shifted multiplicand fits the product buffer
pub proof fn lemma_mul_fit(s: Seq<u64>, a: P, da: int, i: int)
    requires f2trim(s), can(a, 2), isdeg(a, da), i >= 0, f2p(s) == pmul(pxk(i), a, 2)
    ensures s.len() <= (da + i) / 64 + 1, dle(f2p(s), da + i)
{
    lemma_pmul_xk(i, a, 2);
    assert forall|k: int| k > da + i implies #[trigger] f2p(s)(k) == 0 by { assert(f2p(s)(k) == a(k - i)); }
    lemma_f2len(s, da + i);
}
pub proof fn lemma_xorpart(r: Seq<u64>, o: Seq<u64>, s: Seq<u64>)
    requires r.len() == o.len(), s.len() <= o.len(), forall|j: int| 0 <= j < s.len() ==> #[trigger] r[j] == o[j] ^ s[j], forall|j: int| s.len() <= j < r.len() ==> #[trigger] r[j] == o[j]
    ensures f2p(r) == padd(f2p(o), f2p(s), 2)
{
    assert forall|j: int| j >= 0 implies #[trigger] wat(r, j) == wat(o, j) ^ wat(s, j) by { lemma_f2xor0(wat(o, j)); lemma_f2xor0(0); if j < s.len() { assert(r[j] == o[j] ^ s[j]); } else if j < r.len() { assert(r[j] == o[j]); } }
    lemma_f2xor(r, o, s);
}
pub proof fn lemma_mul_len(s: Seq<u64>, a: Seq<u64>, b: Seq<u64>)
    requires f2ok(a), f2ok(b), f2trim(s), f2p(s) == pmul(f2p(a), f2p(b), 2)
    ensures s.len() <= a.len() + b.len(), forall|m: int, n: int| m >= 0 && n >= 0 && #[trigger] dle(f2p(a), m) && #[trigger] dle(f2p(b), n) ==> dle(f2p(s), m + n) && s.len() <= (m + n) / 64 + 1
{
    lemma_f2can(a); lemma_f2can(b);
    lemma_pmul_dle(f2p(a), f2p(b), 64 * a.len() - 1, 64 * b.len() - 1, 2);
    lemma_f2len(s, 64 * a.len() + 64 * b.len() - 2);
    assert forall|m: int, n: int| m >= 0 && n >= 0 && #[trigger] dle(f2p(a), m) && #[trigger] dle(f2p(b), n) implies dle(f2p(s), m + n) && s.len() <= (m + n) / 64 + 1 by { lemma_pmul_dle(f2p(a), f2p(b), m, n, 2); lemma_f2len(s, m + n); }
}
// ---- evaluation
pub proof fn lemma_psum_word(s: Seq<u64>, n: int, k: int)
    requires 0 <= n < s.len(), 0 <= k <= 64
    ensures psum(f2p(s), 64 * n + k) % 2 == (psum(f2p(s), 64 * n) + (if wpar_lo(s[n], k) { 1int } else { 0int })) % 2
    decreases k
{
    if k > 0 { lemma_psum_word(s, n, k - 1); lemma_f2at(s, n, k - 1); assert(wat(s, n) == s[n]); }
}
pub open spec fn wpar_lo(w: u64, k: int) -> bool decreases k { if k <= 0 { false } else { wpar_lo(w, k - 1) != wb(w, k - 1) } }
pub open spec fn bsum(w: u64, i: int, j: int) -> bool decreases j - i { if i >= j { false } else { bitw(w, i) != bsum(w, i + 1, j) } }
pub proof fn lemma_bsum_hi(w: u64, i: int, j: int) requires i <= j ensures bsum(w, i, j + 1) == (bsum(w, i, j) != bitw(w, j)) decreases j - i { if i < j { lemma_bsum_hi(w, i + 1, j); } else { assert(!bsum(w, i + 1, j + 1)); } }
pub proof fn lemma_wpar_bs(w: u64, k: int) requires 0 <= k ensures wpar(w, k) == bsum(w, 0, k) decreases k { if k > 0 { lemma_wpar_bs(w, k - 1); lemma_bsum_hi(w, 0, k - 1); } }
pub proof fn lemma_wpar_lo_bs(w: u64, k: int) requires 0 <= k <= 64 ensures wpar_lo(w, k) == bsum(w, 64 - k, 64) decreases k { if k > 0 { lemma_wpar_lo_bs(w, k - 1); } }
pub proof fn lemma_f2par(s: Seq<u64>, n: int) requires 0 <= n <= s.len() ensures f2par(s, n) == psum(f2p(s), 64 * n) % 2 decreases n
{ if n > 0 { lemma_f2par(s, n - 1); lemma_psum_word(s, n - 1, 64); lemma_wpar_lo_bs(s[n - 1], 64); lemma_wpar_bs(s[n - 1], 64); } }
// value at an integer point modulo p: the sum of coefficients at an odd point, the constant term at an even one
pub open spec fn peval2(s: Seq<u64>, c: int) -> int { if c % 2 == 1 { psum(f2p(s), 64 * s.len() as int) % 2 } else { f2p(s)(0) } }
pub proof fn lemma_eval0(s: Seq<u64>) requires s.len() >= 1 ensures (s[0] & 1) as int == f2p(s)(0), (s[0] & 1) <= 1 { let w = s[0]; lemma_getwb(w, 0); assert(w >> 0u64 == w) by(bit_vector); assert(0int as u64 == 0u64); assert((w & 1) <= 1) by(bit_vector); }
// ---- derivative
pub proof fn lemma_deriv(r: Seq<u64>, m: Seq<u64>, o: P)
    requires r.len() == m.len(), forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == m[j] & 0x5555_5555_5555_5555u64, forall|k: int| #[trigger] f2p(m)(k) == (if k >= 0 { o(k + 1) } else { 0 }), can(o, 2)
    ensures f2p(r) == pderiv(o, 2)
{
    assert forall|k: int| #[trigger] f2p(r)(k) == pderiv(o, 2)(k) by {
        if k >= 0 {
            let j = k / 64; let b = k % 64; let w = wat(m, j); let t: u64 = (63 - (63 - b)) as u64;
            assert(f2p(m)(k) == o(k + 1)); assert(0 <= o(k + 1) < 2);
            if j < r.len() { assert(r[j] == m[j] & 0x5555_5555_5555_5555u64); }
            assert(((w & 0x5555_5555_5555_5555u64) >> t) & 1 == (if t % 2 == 0 { (w >> t) & 1 } else { 0 })) by(bit_vector) requires t < 64;
            if j >= r.len() { lemma_wb0(b); }
            let c = o(k + 1);
            if k % 2 == 0 { assert(((k + 1) * c) % 2 == c) by(nonlinear_arith) requires k % 2 == 0, 0 <= c < 2; } else { assert(((k + 1) * c) % 2 == 0) by(nonlinear_arith) requires k % 2 == 1, 0 <= c < 2; }
            assert(t as int == b && (b % 2 == k % 2));
        }
    }
    lemma_peq(f2p(r), pderiv(o, 2));
}
// ---- square root
pub open spec fn psqr(r: P) -> P { |k: int| if k >= 0 && k % 2 == 0 { r(k / 2) } else { 0int } }
// over F2 the square of r has r's coefficients at the even positions
pub proof fn lemma_frob(r: P) requires can(r, 2) ensures pmul(r, r, 2) == psqr(r)
{
    assert forall|k: int| #[trigger] pmul(r, r, 2)(k) == psqr(r)(k) by { if k >= 0 { lemma_sq_conv(r, k); } }
    lemma_peq(pmul(r, r, 2), psqr(r));
}
// symmetric sum f(i) == f(k-i): pairs cancel mod 2
pub open spec fn symat(f: P, s: int, i: int) -> bool { f(i) == f(s - i) }
pub proof fn lemma_sym(f: P, lo: int, hi: int)
    requires 0 <= lo, lo <= hi + 1, forall|i: int| lo <= i <= hi ==> #[trigger] symat(f, lo + hi, i)
    ensures (psum(f, hi + 1) - psum(f, lo)) % 2 == (if (lo + hi) % 2 == 0 { f((lo + hi) / 2) % 2 } else { 0 })
    decreases hi - lo + 1
{
    if lo == hi + 1 { assert((lo + hi) % 2 == 1); }
    else if lo == hi { assert((lo + hi) / 2 == lo); assert(psum(f, lo + 1) == psum(f, lo) + f(lo)); }
    else {
        assert((lo + 1) + (hi - 1) == lo + hi);
        assert forall|i: int| lo + 1 <= i <= hi - 1 implies #[trigger] symat(f, (lo + 1) + (hi - 1), i) by { assert(symat(f, lo + hi, i)); }
        lemma_sym(f, lo + 1, hi - 1);
        assert(symat(f, lo + hi, lo));
        let g = f(lo); let x = psum(f, hi) - psum(f, lo + 1);
        assert(psum(f, hi + 1) == psum(f, hi) + f(hi)); assert(psum(f, lo + 1) == psum(f, lo) + f(lo));
        assert((x + 2 * g) % 2 == x % 2);
    }
}
pub proof fn lemma_sq_conv(r: P, k: int) requires can(r, 2), k >= 0 ensures conv(r, r, k) % 2 == psqr(r)(k)
{
    let f = term(r, r, k);
    assert forall|i: int| 0 <= i <= k implies #[trigger] symat(f, 0 + k, i) by { assert(r(i) * r(k - i) == r(k - i) * r(i)) by(nonlinear_arith); assert(k - (k - i) == i); }
    lemma_sym(f, 0, k);
    assert(psum(f, 0) == 0);
    if k % 2 == 0 { let c = r(k / 2); assert(0 <= c < 2); assert(k - k / 2 == k / 2); assert(f(k / 2) == c * c); assert((c * c) % 2 == c) by(nonlinear_arith) requires 0 <= c < 2; }
}
// an odd-position coefficient rules out every square
pub proof fn lemma_nosqrt(a: P, k: int) requires a(k) != 0, k % 2 == 1 ensures forall|r: P| can(r, 2) ==> a != #[trigger] pmul(r, r, 2)
{ assert forall|r: P| can(r, 2) implies a != #[trigger] pmul(r, r, 2) by { lemma_frob(r); if k >= 0 { } assert(psqr(r)(k) == 0); } }
pub proof fn lemma_issqrt(a: P, r: P, d: int)
    requires can(a, 2), can(r, 2), dle(a, d), forall|k: int| 0 <= k && 2 * k <= d ==> #[trigger] r(k) == a(2 * k), forall|k: int| 2 * k > d ==> #[trigger] r(k) == 0, forall|k: int| 0 <= k <= d && k % 2 == 1 ==> #[trigger] a(k) == 0
    ensures a == pmul(r, r, 2)
{
    lemma_frob(r);
    assert forall|k: int| #[trigger] a(k) == psqr(r)(k) by { if k >= 0 && k % 2 == 0 { assert(2 * (k / 2) == k); if k <= d { assert(r(k / 2) == a(2 * (k / 2))); } else { assert(r(k / 2) == 0); } } }
    lemma_peq(a, psqr(r));
}
// ---- order: coefficient strings read as binary numbers
pub proof fn lemma_wlt(x: u64, y: u64) -> (k: int) requires x < y ensures 0 <= k < 64, !wb(x, k), wb(y, k), forall|m: int| k < m < 64 ==> #[trigger] wb(x, m) == wb(y, m)
{
    let z = x ^ y;
    assert(z != 0) by(bit_vector) requires z == x ^ y, x < y;
    let k = lemma_topbit(z, 63);
    let t: u64 = (63 - (63 - k)) as u64;
    assert forall|m: int| k < m < 64 implies #[trigger] wb(x, m) == wb(y, m) by { lemma_wordops(x, y, 63 - m); assert(!wb(z, m)); }
    lemma_wordops(x, y, 63 - k);
    // everything above k agrees
    assert(z >> t == 1) by { lemma_above(z, k); }
    assert(((x >> t) & 1 == 1) ==> x >= y) by(bit_vector) requires (x ^ y) >> t == 1, t < 64;
    k
}
pub proof fn lemma_topbit(z: u64, n: int) -> (k: int)
    requires 0 <= n < 64, z != 0, forall|m: int| n < m < 64 ==> !#[trigger] wb(z, m)
    ensures 0 <= k <= n, wb(z, k), forall|m: int| k < m < 64 ==> !#[trigger] wb(z, m)
    decreases n
{ if wb(z, n) { n } else if n == 0 { assert forall|m: int| 0 <= m < 64 implies !#[trigger] wb(z, m) by { if m == 0 { } } lemma_wb_zero(z); 0 } else { assert forall|m: int| n - 1 < m < 64 implies !#[trigger] wb(z, m) by { if m == n { } } lemma_topbit(z, n - 1) } }
pub proof fn lemma_above(z: u64, k: int) requires 0 <= k < 64, wb(z, k), forall|m: int| k < m < 64 ==> !#[trigger] wb(z, m) ensures z >> ((63 - (63 - k)) as u64) == 1
{
    let t: u64 = (63 - (63 - k)) as u64;
    if k < 63 { lemma_shr_zero(z, k, k + 1); let u: u64 = (k + 1) as u64; assert(z >> t == 1) by(bit_vector) requires z >> u == 0, (z >> t) & 1 == 1, u == t + 1, u < 64; }
    else { assert(z >> t == 1) by(bit_vector) requires t == 63, (z >> t) & 1 == 1; }
}
// words agree above i and a[i] < b[i]
pub proof fn lemma_plt_words(a: Seq<u64>, b: Seq<u64>, i: int)
    requires i >= 0, wat(a, i) < wat(b, i), forall|j: int| j > i ==> #[trigger] wat(a, j) == wat(b, j)
    ensures plt(f2p(a), f2p(b)), !plt(f2p(b), f2p(a)), f2p(a) != f2p(b)
{
    let k = lemma_wlt(wat(a, i), wat(b, i));
    let m = 64 * i + k;
    lemma_f2at(a, i, k); lemma_f2at(b, i, k);
    assert forall|n: int| n > m implies #[trigger] f2p(a)(n) == f2p(b)(n) by {
        if n / 64 == i { assert(n % 64 > k); assert(wb(wat(a, i), n % 64) == wb(wat(b, i), n % 64)); } else { assert(n / 64 > i); assert(wat(a, n / 64) == wat(b, n / 64)); }
    }
    assert(plt_at(f2p(a), f2p(b), m));
    lemma_plt_excl(f2p(a), f2p(b));
}
pub proof fn lemma_plt_deg(a: Seq<u64>, b: Seq<u64>, d: int, e: int)
    requires isdeg(f2p(a), d), isdeg(f2p(b), e), d < e
    ensures plt(f2p(a), f2p(b)), !plt(f2p(b), f2p(a)), f2p(a) != f2p(b)
{
    assert(f2p(a)(e) == 0);
    assert forall|n: int| n > e implies #[trigger] f2p(a)(n) == f2p(b)(n) by {}
    assert(plt_at(f2p(a), f2p(b), e));
    lemma_plt_excl(f2p(a), f2p(b));
}
pub proof fn lemma_eqwords(a: Seq<u64>, b: Seq<u64>, d: int) requires f2trim(a), f2trim(b), isdeg(f2p(a), d), isdeg(f2p(b), d), forall|j: int| 0 <= j <= d / 64 ==> #[trigger] a[j] == b[j] ensures f2p(a) == f2p(b), !plt(f2p(a), f2p(b)), a.len() == b.len()
{
    lemma_f2deg_words(a, d); lemma_f2deg_words(b, d);
    assert forall|j: int| j >= 0 implies #[trigger] wat(a, j) == wat(b, j) by { if j <= d / 64 { assert(a[j] == b[j]); } }
    lemma_f2words(a, b); lemma_plt_excl(f2p(a), f2p(b));
}
// ---- increment
pub open spec fn pincr(a: P, b: P) -> bool { exists|j: int| pincr_at(a, b, j) }
pub open spec fn pincr_at(a: P, b: P, j: int) -> bool { j >= 0 && a(j) == 0 && b(j) == 1 && (forall|k: int| 0 <= k < j ==> #[trigger] a(k) == 1) && (forall|k: int| 0 <= k < j ==> #[trigger] b(k) == 0) && forall|k: int| k > j ==> #[trigger] b(k) == a(k) }
pub proof fn lemma_lowzero(w: u64, n: int) -> (t: int) requires 0 <= n < 64, w != !0u64, forall|m: int| 0 <= m < n ==> #[trigger] wb(w, m) ensures n <= t < 64, !wb(w, t), forall|m: int| 0 <= m < t ==> #[trigger] wb(w, m) decreases 64 - n
{
    if !wb(w, n) { n } else if n == 63 {
        assert forall|k: int| 0 <= k < 64 implies #[trigger] wb(w, k) == wb(!0u64, k) by { if k == 63 {} let s: u64 = (63 - (63 - k)) as u64; assert((!0u64 >> s) & 1 == 1) by(bit_vector) requires s < 64; assert(wb(w, k)); }
        lemma_wb_eq(w, !0u64); 0
    } else { assert forall|m: int| 0 <= m < n + 1 implies #[trigger] wb(w, m) by { if m == n {} } lemma_lowzero(w, n + 1) }
}
pub proof fn lemma_lowones(w: u64, t: int) requires 0 <= t < 64, !wb(w, t), forall|m: int| 0 <= m < t ==> #[trigger] wb(w, m) ensures w & sub(1u64 << (t as u64), 1) == sub(1u64 << (t as u64), 1)
{
    let s = t as u64; let msk = sub(1u64 << s, 1); let x = w & msk;
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wb(x, k) == wb(msk, k) by {
        let u: u64 = (63 - (63 - k)) as u64;
        if k < t { assert(wb(w, k)); assert(((w & sub(1u64 << s, 1)) >> u) & 1 == 1 && (sub(1u64 << s, 1) >> u) & 1 == 1) by(bit_vector) requires (w >> u) & 1 == 1, u < s, s < 64; }
        else { assert(((w & sub(1u64 << s, 1)) >> u) & 1 == 0 && (sub(1u64 << s, 1) >> u) & 1 == 0) by(bit_vector) requires u >= s, u < 64, s < 64; }
    }
    lemma_wb_eq(x, msk);
}
pub proof fn lemma_incrw(o: Seq<u64>, n: Seq<u64>, i: int)
    requires 0 <= i < o.len(), n.len() == o.len(), o[i] != !0u64, n[i] == add(o[i], 1), forall|j: int| 0 <= j < i ==> #[trigger] o[j] == !0u64, forall|j: int| 0 <= j < i ==> #[trigger] n[j] == 0, forall|j: int| i < j < o.len() ==> #[trigger] n[j] == o[j], f2trim(o)
    ensures pincr(f2p(o), f2p(n)), f2trim(n)
{
    let w = o[i];
    let t = lemma_lowzero(w, 0); lemma_lowones(w, t);
    let m = 64 * i + t; let s: u64 = (63 - (63 - t)) as u64;
    lemma_f2at(o, i, t); lemma_f2at(n, i, t);
    assert((w >> s) & 1 == 0 || (w >> s) & 1 == 1) by(bit_vector);
    assert((add(w, 1) >> s) & 1 == 1) by(bit_vector) requires w & sub(1u64 << s, 1) == sub(1u64 << s, 1), (w >> s) & 1 == 0, s < 64;
    assert forall|k: int| 0 <= k < m implies #[trigger] f2p(o)(k) == 1 by {
        if k / 64 < i { assert(o[k / 64] == !0u64); let u: u64 = (63 - (63 - k % 64)) as u64; assert((!0u64 >> u) & 1 == 1) by(bit_vector) requires u < 64; } else { assert(k / 64 == i && k % 64 < t); assert(wb(w, k % 64)); }
    }
    assert forall|k: int| 0 <= k < m implies #[trigger] f2p(n)(k) == 0 by {
        if k / 64 < i { assert(n[k / 64] == 0); lemma_wb0(k % 64); } else { let u: u64 = (63 - (63 - k % 64)) as u64; assert(u < s); assert((add(w, 1) >> u) & 1 == 0) by(bit_vector) requires w & sub(1u64 << s, 1) == sub(1u64 << s, 1), u < s, s < 64; }
    }
    assert forall|k: int| k > m implies #[trigger] f2p(n)(k) == f2p(o)(k) by {
        if k / 64 == i { let u: u64 = (63 - (63 - k % 64)) as u64; assert(u > s); assert((add(w, 1) >> u) & 1 == (w >> u) & 1) by(bit_vector) requires w & sub(1u64 << s, 1) == sub(1u64 << s, 1), (w >> s) & 1 == 0, u > s, u < 64; }
        else { assert(k / 64 > i); if k / 64 < o.len() { assert(n[k / 64] == o[k / 64]); } }
    }
    assert(pincr_at(f2p(o), f2p(n), m));
    assert(add(w, 1) != 0) by(bit_vector) requires w != !0u64;
    if n.len() > 1 && i == n.len() - 1 { }
}
pub proof fn lemma_incrall(o: Seq<u64>, z: Seq<u64>, n: P)
    requires o.len() >= 1, z.len() == o.len(), forall|j: int| 0 <= j < o.len() ==> #[trigger] o[j] == !0u64, forall|j: int| 0 <= j < o.len() ==> #[trigger] z[j] == 0, forall|k: int| #[trigger] n(k) == (if k == 64 * o.len() { 1 } else { f2p(z)(k) })
    ensures pincr(f2p(o), n)
{
    lemma_f2zero(z); let m = 64 * o.len() as int; lemma_f2can(o);
    assert forall|k: int| 0 <= k < m implies #[trigger] f2p(o)(k) == 1 by { assert(o[k / 64] == !0u64); let u: u64 = (63 - (63 - k % 64)) as u64; assert((!0u64 >> u) & 1 == 1) by(bit_vector) requires u < 64; }
    assert forall|k: int| 0 <= k < m implies #[trigger] n(k) == 0 by { assert(pz()(k) == 0); }
    assert forall|k: int| k > m implies #[trigger] n(k) == f2p(o)(k) by { assert(pz()(k) == 0); }
    assert(n(m) == 1);
    assert(pincr_at(f2p(o), n, m));
}

// ---- powers
pub proof fn lemma_ppow_consts(e: nat) ensures ppow(pc(1), e, 2) == pc(1), e > 0 ==> ppow(pz(), e, 2) == pz(), pc(0) == pz() decreases e
{ lemma_pol_const(1, 2); lemma_pmul_one(pc(1), 2); assert forall|k: int| #[trigger] pc(0)(k) == pz()(k) by {} lemma_peq(pc(0), pz()); if e > 0 { lemma_ppow_consts((e - 1) as nat); lemma_pmul_zero(ppow(pz(), (e - 1) as nat, 2), 2); } }
pub proof fn lemma_pconst(c: int) ensures pc(1) != pz(), pc(0) == pz() { lemma_ppow_consts(0); assert(pc(1)(0) != pz()(0)); }
pub open spec fn f2expinv(r: P, x: P, e: int, n: int) -> bool { exists|dr: int, dx: int| #[trigger] f2expinv1(r, x, e, n, dr, dx) }
pub open spec fn f2expinv1(r: P, x: P, e: int, n: int, dr: int, dx: int) -> bool { dr >= 0 && dx >= 0 && dle(r, dr) && dle(x, dx) && dr + dx * e <= n }
pub proof fn lemma_expinit(s: Seq<u64>, e: int)
    requires f2ok(s), e >= 0, e == 0 || 2 * s.len() * e + 2 <= f2max()
    ensures f2expinv(pc(1), f2p(s), e, 64 * s.len() * e), 2 * (64 * s.len() * e) <= 64 * f2max() - 128, pmul(pc(1), ppow(f2p(s), e as nat, 2), 2) == ppow(f2p(s), e as nat, 2)
{
    lemma_f2can(s); lemma_ppow_can(f2p(s), e as nat, 2); lemma_pmul_one(ppow(f2p(s), e as nat, 2), 2);
    let l = s.len() as int;
    let d = 64 * l;
    assert forall|k: int| k > d implies #[trigger] f2p(s)(k) == 0 by {}
    assert(0 + d * e == 64 * l * e);
    assert(2 * (64 * l * e) == 64 * (2 * l * e)) by(nonlinear_arith);
    assert(f2expinv1(pc(1), f2p(s), e, 64 * l * e, 0, d));
}
pub proof fn lemma_expmul(r: Seq<u64>, x: Seq<u64>, e: int, n: int)
    requires f2ok(r), f2ok(x), e > 0, f2expinv(f2p(r), f2p(x), e, n), 2 * n <= 64 * f2max() - 128
    ensures r.len() + x.len() <= f2max(), 2 * x.len() <= f2max(),
        e % 2 == 1 ==> f2expinv(pmul(f2p(r), f2p(x), 2), pmul(f2p(x), f2p(x), 2), e / 2, n), e % 2 == 0 ==> f2expinv(f2p(r), pmul(f2p(x), f2p(x), 2), e / 2, n)
{
    let (dr, dx) = choose|dr: int, dx: int| #[trigger] f2expinv1(f2p(r), f2p(x), e, n, dr, dx);
    assert(dx <= dx * e) by(nonlinear_arith) requires e >= 1, dx >= 0;
    lemma_f2len(r, dr); lemma_f2len(x, dx); lemma_f2can(r); lemma_f2can(x);
    lemma_pmul_dle(f2p(x), f2p(x), dx, dx, 2); lemma_pmul_dle(f2p(r), f2p(x), dr, dx, 2);
    let h = e / 2;
    if e % 2 == 1 {
        assert(dr + dx + (dx + dx) * h == dr + dx * e) by(nonlinear_arith) requires e == 2 * h + 1;
        assert(f2expinv1(pmul(f2p(r), f2p(x), 2), pmul(f2p(x), f2p(x), 2), h, n, dr + dx, dx + dx));
    } else {
        assert(dr + (dx + dx) * h == dr + dx * e) by(nonlinear_arith) requires e == 2 * h;
        assert(f2expinv1(f2p(r), pmul(f2p(x), f2p(x), 2), h, n, dr, dx + dx));
    }
}
pub proof fn lemma_shr1f(e: i32) ensures e >= 0 ==> ((e as u64) >> 1u64) as int == e as int / 2 { if e >= 0 { let x = e as u64; assert(x >> 1u64 == x / 2) by(bit_vector); } }
pub proof fn lemma_divmono(a: int, b: int) ensures a <= b ==> a / 64 <= b / 64 { if a <= b { assert(a / 64 <= b / 64); } }
pub proof fn lemma_sh6u(c: i32) ensures 0 <= c < 64 * f2max() ==> ((c as u64 + 64) as u64) >> 6u64 == c as u64 / 64 + 1
{ if 0 <= c < 64 * f2max() { let x = (c as u64 + 64) as u64; assert(x >> 6u64 == x / 64) by(bit_vector); } }
pub proof fn lemma_pscale2(a: P, c: int, s: Seq<u64>) requires a == f2p(s) ensures c % 2 == 1 ==> pscale(a, c, 2) == a, c % 2 == 0 ==> pscale(a, c, 2) == pz(), pc(0) == pz()
{
    lemma_ppow_consts(0);
    assert forall|k: int| #[trigger] pscale(a, c, 2)(k) == (if c % 2 == 1 { a(k) } else { 0 }) by { let x = a(k); assert(0 <= x < 2); let h = c / 2; let m = c % 2; assert(c * x == 2 * (h * x) + m * x) by(nonlinear_arith) requires c == 2 * h + m; if m == 1 { } }
    if c % 2 == 1 { lemma_peq(pscale(a, c, 2), a); } else { lemma_peq(pscale(a, c, 2), pz()); }
}
pub proof fn lemma_isodd(s: Seq<u64>, k: int) ensures k % 2 == 1 && f2p(s)(k) != 0 ==> forall|r: P| can(r, 2) ==> f2p(s) != #[trigger] pmul(r, r, 2)
{ if k % 2 == 1 && f2p(s)(k) != 0 { lemma_nosqrt(f2p(s), k); } }
pub proof fn lemma_eqint(s: Seq<u64>, c: int) requires f2ok(s), 0 <= c <= 1 ensures (f2p(s) == pc(c)) == (s.len() == 1 && s[0] as int == c)
{
    if s.len() == 1 && s[0] as int == c { lemma_f2small(s, s[0], 0, 0, c); assert forall|k: int| #[trigger] f2p(s)(k) == pc(c)(k) by {} lemma_peq(f2p(s), pc(c)); }
    if f2p(s) == pc(c) { assert(isdeg(f2p(s), 0)); lemma_f2deg_words(s, 0); assert(f2p(s)(0) == c); let w = s[0]; lemma_f2at(s, 0, 0); lemma_wb0(0); if s.len() > 1 { assert(s[s.len() - 1] == 0); } }
}
// ---- division
pub proof fn lemma_f2isdeg(s: Seq<u64>) requires s.len() >= 1 ensures isdeg(f2p(s), f2deg(s)), 0 <= f2deg(s) < 64 * s.len(), f2trim(s) ==> s.len() == f2deg(s) / 64 + 1, forall|n: int| n >= 0 && #[trigger] dle(f2p(s), n) ==> f2deg(s) <= n
{
    lemma_f2can(s); lemma_f2deg_ex(s, 64 * s.len() - 1);
    let d = choose|d: int| isdeg(f2p(s), d) && d <= (if 64 * s.len() - 1 >= 0 { 64 * s.len() - 1 } else { 0 });
    lemma_isdeg_uniq(f2p(s), d, f2deg(s)); lemma_f2deg_words(s, d);
    assert forall|n: int| n >= 0 && #[trigger] dle(f2p(s), n) implies f2deg(s) <= n by { if f2deg(s) > n { assert(f2p(s)(f2deg(s)) == 0); } }
}
pub proof fn lemma_dle_pz(a: P, n: int) requires can(a, 2), dle(a, n), n < 0 ensures a == pz() { assert forall|k: int| #[trigger] a(k) == pz()(k) by {} lemma_peq(a, pz()); }
pub proof fn lemma_pz_dle() ensures forall|n: int| #[trigger] dle(pz(), n), can(pz(), 2), pol(pz(), 2) { lemma_pol_const(0, 2); }
// the subtraction step of long division: rem has its coefficient at pos, sh = x^q b has the same leading position
pub proof fn lemma_div_step(a: P, b: P, q0: P, q1: P, r0: P, r1: P, sh: P, pos: int, dd: int, qp: int)
    requires can(a, 2), can(b, 2), can(q0, 2), can(r0, 2), isdeg(b, dd), b(dd) == 1, qp >= 0, pos == dd + qp, sh == pmul(pxk(qp), b, 2), a == padd(pmul(q0, b, 2), r0, 2), dle(r0, pos), r0(pos) == 1,
        r1 == psub(r0, sh, 2), forall|k: int| #[trigger] q1(k) == (if k == qp { 1 } else { q0(k) }), q0(qp) == 0
    ensures a == padd(pmul(q1, b, 2), r1, 2), dle(r1, pos - 1), can(q1, 2), can(r1, 2)
{
    lemma_pmul_xk(qp, b, 2); lemma_pmul_can(pxk(qp), b, 2); lemma_pmul_can(q0, b, 2);
    assert forall|k: int| #[trigger] q1(k) == padd(q0, pxk(qp), 2)(k) by { assert(0 <= q0(k) < 2); }
    lemma_peq(q1, padd(q0, pxk(qp), 2)); lemma_pol_xk(qp, 2); lemma_padd_can(q0, pxk(qp), 2); lemma_padd_can(r0, sh, 2);
    lemma_pmul_dist(b, q0, pxk(qp), 2);
    // (X + Y) + (R - Y) = X + R
    let x = pmul(q0, b, 2);
    assert forall|k: int| #[trigger] padd(padd(x, sh, 2), r1, 2)(k) == a(k) by { assert(0 <= x(k) < 2 && 0 <= sh(k) < 2 && 0 <= r0(k) < 2); assert(a(k) == padd(x, r0, 2)(k)); }
    lemma_peq(padd(padd(x, sh, 2), r1, 2), a);
    assert forall|k: int| k > pos - 1 implies #[trigger] r1(k) == 0 by { assert(sh(k) == b(k - qp)); }
}
pub proof fn lemma_div_skip(r0: P, pos: int) requires dle(r0, pos), r0(pos) == 0 ensures dle(r0, pos - 1) { assert forall|k: int| k > pos - 1 implies #[trigger] r0(k) == 0 by { if k == pos {} } }
pub proof fn lemma_div_demote(s0: P, s1: P, b: P, qp: int) requires can(b, 2), qp >= 1, s0 == pmul(pxk(qp), b, 2), forall|k: int| #[trigger] s1(k) == (if k >= 0 { s0(k + 1) } else { 0 }) ensures s1 == pmul(pxk(qp - 1), b, 2)
{
    lemma_pmul_xk(qp, b, 2); lemma_pmul_xk(qp - 1, b, 2);
    assert forall|k: int| #[trigger] s1(k) == pmul(pxk(qp - 1), b, 2)(k) by { assert(pmul(pxk(qp - 1), b, 2)(k) == b(k - (qp - 1))); if k >= 0 { assert(s0(k + 1) == b(k + 1 - qp)); } }
    lemma_peq(s1, pmul(pxk(qp - 1), b, 2));
}
pub open spec fn f2div(a: P, b: P, q: P, r: P) -> bool { a == padd(pmul(q, b, 2), r, 2) && prem(r, b) }
pub proof fn lemma_div_trivial(a: P, b: P, d: int, e: int)
    requires can(a, 2), can(b, 2), isdeg(a, d), isdeg(b, e), a == pz() || d < e
    ensures f2div(a, b, pz(), a), qdeg(pz(), a, b)
{
    lemma_pmul_zero(b, 2); lemma_padd_laws(a, a, a, 2); lemma_pz_dle();
    assert forall|x: int| #[trigger] isdeg(b, x) implies dle(a, x - 1) by { lemma_isdeg_uniq(b, x, e); if a == pz() {} }
}
pub proof fn lemma_div_begin(a: P, b: P, sh: P, l: int, z: P) requires can(a, 2), can(b, 2), z == pz() ensures a == padd(pmul(z, b, 2), a, 2) { lemma_pmul_zero(b, 2); lemma_padd_laws(a, a, a, 2); }
pub proof fn lemma_div_end(a: P, b: P, q: P, r: P, d: int, e: int)
    requires isdeg(a, d), isdeg(b, e), dle(q, d - e), dle(r, e - 1), a == padd(pmul(q, b, 2), r, 2)
    ensures f2div(a, b, q, r), qdeg(q, a, b)
{
    assert forall|x: int| #[trigger] isdeg(b, x) implies dle(r, x - 1) by { lemma_isdeg_uniq(b, x, e); }
    assert forall|x: int, y: int| #[trigger] isdeg(a, x) && #[trigger] isdeg(b, y) implies dle(q, x - y) by { lemma_isdeg_uniq(a, x, d); lemma_isdeg_uniq(b, y, e); }
}
pub proof fn lemma_deg1(s: Seq<u64>, d: int) requires s.len() >= 1, isdeg(f2p(s), d), f2p(s) != pz() ensures f2p(s)(d) == 1
{ if d == 0 && f2p(s)(0) == 0 { assert forall|k: int| #[trigger] f2p(s)(k) == pz()(k) by {} lemma_peq(f2p(s), pz()); } }
// shifted divisor stays inside the dividend's words
pub proof fn lemma_div_fit(s: Seq<u64>, b: P, qp: int, dd: int) requires f2trim(s), can(b, 2), isdeg(b, dd), qp >= 0, f2p(s) == pmul(pxk(qp), b, 2) ensures s.len() <= (dd + qp) / 64 + 1
{ lemma_mul_fit(s, b, dd, qp); }
pub proof fn lemma_rem_deg(r: Seq<u64>, d: Seq<u64>) requires f2trim(r), f2trim(d), prem(f2p(r), f2p(d)), f2p(r) != pz() ensures f2deg(r) < f2deg(d), 0 <= f2deg(r), r.len() <= d.len()
{
    lemma_f2isdeg(r); lemma_f2isdeg(d); lemma_f2can(r); let e = f2deg(d);
    if e == 0 { lemma_dle_pz(f2p(r), -1); }
    lemma_f2len(r, e - 1); assert((e - 1) / 64 <= e / 64);
}
// degree bounds of the coefficients (B = deg b or deg a): m for d, mm for c
pub open spec fn bzbound(m: P, mm: P, c: Seq<u64>, d: Seq<u64>, bb: int) -> bool { dle(m, bb - f2deg(c)) && dle(mm, bb - f2deg(d)) }
pub proof fn lemma_bz_step(m: Seq<u64>, mm: Seq<u64>, q: Seq<u64>, c: Seq<u64>, d: Seq<u64>, r: Seq<u64>, bb: int)
    requires f2ok(m), f2ok(mm), f2ok(q), f2trim(c), f2trim(d), f2trim(r), bzbound(f2p(m), f2p(mm), c, d, bb), qdeg(f2p(q), f2p(c), f2p(d)), prem(f2p(r), f2p(d)), f2p(r) != pz(), f2div(f2p(c), f2p(d), f2p(q), f2p(r)), 0 <= bb < 32 * f2max() - 64, f2deg(c) < 32 * f2max() - 64
    ensures q.len() + m.len() <= f2max(), bzbound(psub(f2p(mm), pmul(f2p(q), f2p(m), 2), 2), f2p(m), d, r, bb), f2deg(r) <= f2deg(c)
{
    let dc = f2deg(c); let dd = f2deg(d); let dr = f2deg(r);
    lemma_f2isdeg(c); lemma_f2isdeg(d); lemma_f2isdeg(r); lemma_f2can(c); lemma_f2can(d); lemma_f2can(r); lemma_f2can(q); lemma_f2can(m); lemma_f2can(mm);
    lemma_rem_deg(r, d); lemma_pz_dle();
    assert(dle(f2p(q), dc - dd));
    if dc < dd {
        lemma_dle_pz(f2p(q), dc - dd); lemma_pmul_zero(f2p(d), 2); lemma_pmul_zero(f2p(m), 2); lemma_padd_laws(f2p(r), f2p(r), f2p(r), 2);
        assert(f2p(c) == f2p(r)); lemma_isdeg_uniq(f2p(c), dc, dr);
        lemma_f2len(q, 0);
        lemma_padd_laws(f2p(mm), f2p(mm), f2p(mm), 2);
    } else {
        lemma_f2len(q, dc - dd);
        assert((dc - dd) / 64 <= dc / 64);
        if bb - dc < 0 { lemma_dle_pz(f2p(m), bb - dc); lemma_pmul_zero(f2p(q), 2); lemma_padd_laws(f2p(mm), f2p(mm), f2p(mm), 2); }
        else {
            lemma_pmul_dle(f2p(q), f2p(m), dc - dd, bb - dc, 2);
            assert forall|k: int| k > bb - dd implies #[trigger] psub(f2p(mm), pmul(f2p(q), f2p(m), 2), 2)(k) == 0 by {}
        }
    }
    if bb - dc >= 0 { lemma_f2len(m, bb - dc); assert((bb - dc) / 64 <= bb / 64); } else { lemma_dle_pz(f2p(m), bb - dc); lemma_f2len(m, 0); }
    assert forall|k: int| k > bb - dr implies #[trigger] f2p(m)(k) == 0 by { }
}
pub open spec fn f2isquot(a: P, b: P, q: P) -> bool { exists|r: P| #[trigger] f2div(a, b, q, r) && can(r, 2) }
pub open spec fn f2isrem(a: P, b: P, r: P) -> bool { exists|q: P| #[trigger] f2div(a, b, q, r) && pol(q, 2) }
pub proof fn lemma_bz_begin(a: P, b: P) requires can(a, 2), can(b, 2) ensures pcomb(a, a, b, pc(1), pz(), 2), pcomb(b, a, b, pz(), pc(1), 2), gtrans(a, b, a, b, 2)
{ lemma_pmul_zero(a, 2); lemma_pmul_zero(b, 2); lemma_pmul_one(a, 2); lemma_pmul_one(b, 2); lemma_padd_laws(a, a, a, 2); lemma_padd_laws(b, b, b, 2); }
