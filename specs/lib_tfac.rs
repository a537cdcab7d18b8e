// ---- factor lists: strictly increasing factors with multiplicities
pub type FC = factor_and_count_t;
pub open spec fn tfs(x: tfacinfo_i32) -> Seq<FC> { x.pfactors_and_counts.v@.subrange(0, x.num_distinct as int) }
pub open spec fn tfst(x: tfacinfo_i32) -> bool { x.pfactors_and_counts.st is Live && 0 <= x.num_distinct <= x.num_allocated && x.num_allocated == x.pfactors_and_counts.v@.len() }
pub open spec fn incr(s: Seq<FC>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).factor < (#[trigger] s[j]).factor }
pub open spec fn tfok(x: tfacinfo_i32) -> bool { tfst(x) && incr(tfs(x)) }
pub open spec fn tfroom(x: tfacinfo_i32) -> bool { x.num_allocated < 0x7fff_0000 }
pub open spec fn hasf(s: Seq<FC>, e: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).factor == e }
// multiplicity of e in the list
pub open spec fn mult(s: Seq<FC>, e: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { mult(s.drop_last(), e) + (if s.last().factor == e { s.last().count as int } else { 0 }) } }
pub open spec fn psum(s: Seq<FC>) -> int decreases s.len() { if s.len() == 0 { 0 } else { psum(s.drop_last()) + s.last().count } }
// the product of the factors raised to their multiplicities
pub open spec fn fpw_(f: FC) -> int { pw(f.factor as int, f.count as nat) }
pub open spec fn prod(s: Seq<FC>) -> int decreases s.len() { if s.len() == 0 { 1 } else { prod(s.drop_last()) * fpw_(s.last()) } }
pub open spec fn ndiv(s: Seq<FC>) -> int decreases s.len() { if s.len() == 0 { 1 } else { ndiv(s.drop_last()) * (s.last().count + 1) } }
pub open spec fn cntok(s: Seq<FC>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).count >= 0 && s[i].factor >= 1 }
// k read as a numeral over the bases count+1, least significant first; dig(s, k, i) is what is left after i digits
pub open spec fn dig(s: Seq<FC>, k: int, i: int) -> int decreases i { if i <= 0 { k } else { dig(s, k, i - 1) / (s[i - 1].count + 1) } }
pub open spec fn kexp(s: Seq<FC>, k: int, i: int) -> int { dig(s, k, i) % (s[i].count + 1) }
pub open spec fn kdv(s: Seq<FC>, k: int, i: int) -> int decreases i { if i <= 0 { 1 } else { kdv(s, k, i - 1) * pw(s[i - 1].factor as int, kexp(s, k, i - 1) as nat) } }

pub open spec fn finsert(s: Seq<FC>, i: int, e: i32, c: i32) -> Seq<FC> { s.insert(i, factor_and_count_t { factor: e, count: c }) }
pub open spec fn fadd(s: Seq<FC>, i: int, c: int) -> Seq<FC> { s.update(i, factor_and_count_t { factor: s[i].factor, count: (s[i].count + c) as i32 }) }

pub proof fn lemma_nomult(s: Seq<FC>, e: int) requires !hasf(s, e) ensures mult(s, e) == 0 decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert(s[s.len() - 1] == s.last()); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).factor != e by { assert(t[i] == s[i]); } lemma_nomult(t, e); } }
pub proof fn lemma_mult_at(s: Seq<FC>, i: int) requires incr(s), 0 <= i < s.len() ensures mult(s, s[i].factor as int) == s[i].count decreases s.len()
{
    let t = s.drop_last();
    if i == s.len() - 1 { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).factor != s[i].factor by { assert(t[j] == s[j]); } lemma_nomult(t, s[i].factor as int); }
    else { assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).factor < (#[trigger] t[b]).factor by { assert(t[a] == s[a] && t[b] == s[b]); } assert(t[i] == s[i]); lemma_mult_at(t, i); assert(s[i].factor < s[s.len() - 1].factor); }
}
pub proof fn lemma_ins(s: Seq<FC>, i: int, e: i32, c: i32) requires 0 <= i <= s.len()
    ensures forall|k: int| #[trigger] mult(finsert(s, i, e, c), k) == mult(s, k) + (if k == e { c as int } else { 0 }), psum(finsert(s, i, e, c)) == psum(s) + c, prod(finsert(s, i, e, c)) == prod(s) * pw(e as int, c as nat)
    decreases s.len()
{
    let t = finsert(s, i, e, c);
    if i == s.len() { assert(t.drop_last() =~= s); }
    else {
        lemma_ins(s.drop_last(), i, e, c); let u = finsert(s.drop_last(), i, e, c);
        assert(t.drop_last() =~= u); assert(t.last() == s.last());
        let (a, b, d) = (prod(s.drop_last()), fpw_(s.last()), pw(e as int, c as nat));
        assert((a * d) * b == (a * b) * d) by(nonlinear_arith);
        assert forall|k: int| #[trigger] mult(t, k) == mult(s, k) + (if k == e { c as int } else { 0 }) by { assert(mult(u, k) == mult(s.drop_last(), k) + (if k == e { c as int } else { 0 })); }
    }
}
pub proof fn lemma_addc(s: Seq<FC>, i: int, c: int) requires 0 <= i < s.len(), i32::MIN <= s[i].count + c <= i32::MAX
    ensures forall|k: int| #[trigger] mult(fadd(s, i, c), k) == mult(s, k) + (if k == s[i].factor { c } else { 0 }), psum(fadd(s, i, c)) == psum(s) + c, c >= 0 && s[i].count >= 0 ==> prod(fadd(s, i, c)) == prod(s) * pw(s[i].factor as int, c as nat)
    decreases s.len()
{
    let t = fadd(s, i, c); let sd = s.drop_last();
    if i == s.len() - 1 {
        assert(t.drop_last() =~= sd);
        if c >= 0 && s[i].count >= 0 { lemma_pw_add(s[i].factor as int, s[i].count as nat, c as nat); let (a, b, d) = (prod(sd), fpw_(s.last()), pw(s[i].factor as int, c as nat)); assert(a * (b * d) == (a * b) * d) by(nonlinear_arith); assert((s[i].count + c) as nat == s[i].count as nat + c as nat); }
    } else {
        assert(sd[i] == s[i]); lemma_addc(sd, i, c); let u = fadd(sd, i, c);
        assert(t.drop_last() =~= u); assert(t.last() == s.last());
        let (a, b, d) = (prod(sd), fpw_(s.last()), pw(s[i].factor as int, c as nat));
        assert((a * d) * b == (a * b) * d) by(nonlinear_arith);
        assert forall|k: int| #[trigger] mult(t, k) == mult(s, k) + (if k == s[i].factor { c } else { 0 }) by { assert(mult(u, k) == mult(sd, k) + (if k == s[i].factor { c } else { 0 })); }
    }
}
pub proof fn lemma_incr_ins(s: Seq<FC>, i: int, e: i32, c: i32) requires incr(s), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).factor < e, i < s.len() ==> e < s[i].factor ensures incr(finsert(s, i, e, c))
{
    let t = finsert(s, i, e, c);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).factor < (#[trigger] t[b]).factor by {
        if a < i { assert(t[a] == s[a]); } else if a > i { assert(t[a] == s[a - 1]); }
        if b < i { assert(t[b] == s[b]); } else if b > i { assert(t[b] == s[b - 1]); if b - 1 > i { assert(s[i].factor < s[b - 1].factor); } }
    }
}
pub proof fn lemma_incr_add(s: Seq<FC>, i: int, c: int) requires incr(s), 0 <= i < s.len(), i32::MIN <= s[i].count + c <= i32::MAX ensures incr(fadd(s, i, c))
{ let t = fadd(s, i, c); assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).factor < (#[trigger] t[b]).factor by { assert(t[a].factor == s[a].factor && t[b].factor == s[b].factor); } }
// ---- bounds on partial products
pub proof fn lemma_pw_pos(b: int, e: nat) requires b >= 1 ensures pw(b, e) >= 1 decreases e
{ if e > 0 { lemma_pw_pos(b, (e - 1) as nat); let p = pw(b, (e - 1) as nat); assert(b * p >= 1) by(nonlinear_arith) requires b >= 1, p >= 1; } }
pub proof fn lemma_pw_le(b: int, i: nat, j: nat) requires b >= 1, i <= j ensures 1 <= pw(b, i) <= pw(b, j)
{ lemma_pw_pos(b, i); lemma_pw_pos(b, (j - i) as nat); lemma_pw_add(b, i, (j - i) as nat); let (p, q) = (pw(b, i), pw(b, (j - i) as nat)); assert(p * q >= p) by(nonlinear_arith) requires p >= 1, q >= 1; }
pub proof fn lemma_prod_pos(s: Seq<FC>) requires cntok(s) ensures prod(s) >= 1, ndiv(s) >= 1 decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); lemma_cnt_sub(s, s.len() - 1); assert(t =~= s.subrange(0, s.len() - 1)); lemma_prod_pos(t); assert(s[s.len() - 1] == s.last()); lemma_pw_pos(s.last().factor as int, s.last().count as nat);
        let (a, b, c, d) = (prod(t), fpw_(s.last()), ndiv(t), s.last().count + 1);
        assert(a * b >= 1) by(nonlinear_arith) requires a >= 1, b >= 1; assert(c * d >= 1) by(nonlinear_arith) requires c >= 1, d >= 1;
    }
}
pub proof fn lemma_cnt_sub(s: Seq<FC>, i: int) requires cntok(s), 0 <= i <= s.len() ensures cntok(s.subrange(0, i))
{ let t = s.subrange(0, i); assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).count >= 0 && t[j].factor >= 1 by { assert(t[j] == s[j]); } }
pub open spec fn pre(s: Seq<FC>, i: int) -> Seq<FC> { s.subrange(0, i) }
pub proof fn lemma_prod_step(s: Seq<FC>, i: int) requires 0 <= i < s.len() ensures prod(pre(s, i + 1)) == prod(pre(s, i)) * fpw_(s[i]), ndiv(pre(s, i + 1)) == ndiv(pre(s, i)) * (s[i].count + 1), psum(pre(s, i + 1)) == psum(pre(s, i)) + s[i].count
{ let t = pre(s, i + 1); assert(t.drop_last() =~= pre(s, i)); assert(t.last() == s[i]); }
pub proof fn lemma_pre(s: Seq<FC>) ensures pre(s, 0) =~= Seq::<FC>::empty(), pre(s, s.len() as int) =~= s, prod(pre(s, 0)) == 1, ndiv(pre(s, 0)) == 1, psum(pre(s, 0)) == 0 {}
pub proof fn lemma_prod_mono(s: Seq<FC>, i: int) requires cntok(s), 0 <= i <= s.len() ensures 1 <= prod(pre(s, i)) <= prod(s), 1 <= ndiv(pre(s, i)) <= ndiv(s) decreases s.len() - i
{
    if i == s.len() { lemma_pre(s); lemma_prod_pos(s); }
    else {
        lemma_prod_mono(s, i + 1); lemma_prod_step(s, i); lemma_cnt_sub(s, i); lemma_prod_pos(pre(s, i)); lemma_pw_pos(s[i].factor as int, s[i].count as nat);
        let (a, b, c, d) = (prod(pre(s, i)), fpw_(s[i]), ndiv(pre(s, i)), s[i].count + 1);
        assert(a * b >= a) by(nonlinear_arith) requires a >= 1, b >= 1; assert(c * d >= c) by(nonlinear_arith) requires c >= 1, d >= 1;
    }
}
pub proof fn lemma_kdv(s: Seq<FC>, k: int, i: int) requires cntok(s), 0 <= i <= s.len(), k >= 0 ensures 1 <= kdv(s, k, i) <= prod(pre(s, i)), 0 <= dig(s, k, i) <= k, i < s.len() ==> 0 <= kexp(s, k, i) <= s[i].count decreases i
{
    if i > 0 {
        lemma_kdv(s, k, i - 1); lemma_prod_step(s, i - 1);
        let e = kexp(s, k, i - 1); let c = s[i - 1].count as int; let f = s[i - 1].factor as int;
        lemma_pw_le(f, e as nat, c as nat);
        let (a, b, x, y) = (kdv(s, k, i - 1), pw(f, e as nat), prod(pre(s, i - 1)), fpw_(s[i - 1]));
        assert(1 <= a * b <= x * y) by(nonlinear_arith) requires 1 <= a <= x, 1 <= b <= y;
        let d = dig(s, k, i - 1); assert(0 <= d / (c + 1) <= d) by(nonlinear_arith) requires d >= 0, c >= 0;
    } else { lemma_pre(s); }
    if i < s.len() { let d = dig(s, k, i); let m = s[i].count + 1; assert(0 <= d % m < m) by(nonlinear_arith) requires m >= 1; }
}
// every k below the number of divisors is read completely: nothing is left after the last digit
pub proof fn lemma_dig_lt(s: Seq<FC>, k: int, i: int) requires cntok(s), 0 <= i <= s.len(), 0 <= k ensures dig(s, k, i) * ndiv(pre(s, i)) <= k < (dig(s, k, i) + 1) * ndiv(pre(s, i)) decreases i
{
    if i > 0 {
        lemma_dig_lt(s, k, i - 1); lemma_prod_step(s, i - 1); lemma_prod_mono(s, i - 1); lemma_kdv(s, k, i - 1);
        let d = dig(s, k, i - 1); let m = s[i - 1].count + 1; let n = ndiv(pre(s, i - 1)); let q = d / m;
        assert(q * m <= d < (q + 1) * m) by(nonlinear_arith) requires q == d / m, m >= 1, d >= 0;
        assert(q * (n * m) <= d * n) by(nonlinear_arith) requires q * m <= d, n >= 1;
        assert((d + 1) * n <= (q + 1) * (n * m)) by(nonlinear_arith) requires d + 1 <= (q + 1) * m, n >= 1;
    } else { lemma_pre(s); }
}
// distinct numerals below ndiv have distinct digits (so the exponent vectors are pairwise different)
pub proof fn property_exponents(s: Seq<FC>, k: int, l: int, i: int) requires cntok(s), 0 <= i <= s.len(), 0 <= k, 0 <= l, dig(s, k, i) == dig(s, l, i), forall|j: int| 0 <= j < i ==> #[trigger] kexp(s, k, j) == kexp(s, l, j) ensures k == l decreases i
{
    if i > 0 {
        let m = s[i - 1].count + 1; let (a, b) = (dig(s, k, i - 1), dig(s, l, i - 1)); assert(kexp(s, k, i - 1) == kexp(s, l, i - 1));
        assert(a == m * (a / m) + a % m) by(nonlinear_arith) requires m >= 1; assert(b == m * (b / m) + b % m) by(nonlinear_arith) requires m >= 1;
        property_exponents(s, k, l, i - 1);
    }
}
// ---- trial division by the prime table
pub open spec fn primef(s: Seq<FC>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_prime((#[trigger] s[i]).factor as int) && s[i].count >= 1 }
pub open spec fn below(s: Seq<FC>, b: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).factor < b }
pub open spec fn tfins(o: tfacinfo_i32, f: tfacinfo_i32, e: i32, c: i32) -> bool {
    &&& tfok(f) &&& f.num_allocated <= o.num_allocated + 20 &&& f.num_distinct <= o.num_distinct + 1 &&& f.have_unit == o.have_unit &&& f.unit == o.unit
    &&& forall|k: int| #[trigger] mult(tfs(f), k) == mult(tfs(o), k) + (if k == e { c as int } else { 0 })
    &&& forall|k: int| #[trigger] hasf(tfs(f), k) == (hasf(tfs(o), k) || k == e)
    &&& psum(tfs(f)) == psum(tfs(o)) + c
    &&& c >= 0 && cntok(tfs(o)) && e >= 1 ==> prod(tfs(f)) == prod(tfs(o)) * pw(e as int, c as nat) && cntok(tfs(f))
}
pub proof fn lemma_nohas(s: Seq<FC>, e: int, i: int) requires incr(s), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).factor < e, i < s.len() ==> e < s[i].factor ensures !hasf(s, e), mult(s, e) == 0
{ assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).factor != e by { if j > i { assert(s[i].factor < s[j].factor); } } lemma_nomult(s, e); }
pub proof fn lemma_hasadd(s: Seq<FC>, i: int, c: int) requires 0 <= i < s.len(), i32::MIN <= s[i].count + c <= i32::MAX ensures forall|k: int| #[trigger] hasf(fadd(s, i, c), k) == (hasf(s, k) || k == s[i].factor), c >= 0 && cntok(s) ==> cntok(fadd(s, i, c))
{
    let t = fadd(s, i, c);
    assert forall|k: int| #[trigger] hasf(t, k) == (hasf(s, k) || k == s[i].factor) by {
        if hasf(t, k) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).factor == k; assert(s[j].factor == k); }
        if hasf(s, k) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).factor == k; assert(t[j].factor == k); }
    }
    if c >= 0 && cntok(s) { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).count >= 0 && t[j].factor >= 1 by { assert(s[j].count >= 0 && s[j].factor >= 1); } }
}
pub proof fn lemma_hasins(s: Seq<FC>, i: int, e: i32, c: i32) requires 0 <= i <= s.len() ensures forall|k: int| #[trigger] hasf(finsert(s, i, e, c), k) == (hasf(s, k) || k == e), c >= 0 && e >= 1 && cntok(s) ==> cntok(finsert(s, i, e, c))
{
    let t = finsert(s, i, e, c);
    assert forall|k: int| #[trigger] hasf(t, k) == (hasf(s, k) || k == e) by {
        if hasf(t, k) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).factor == k; if j < i { assert(s[j].factor == k); } else if j > i { assert(s[j - 1].factor == k); } }
        if hasf(s, k) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).factor == k; if j < i { assert(t[j].factor == k); } else { assert(t[j + 1].factor == k); } }
        assert(t[i].factor == e);
    }
    if c >= 0 && e >= 1 && cntok(s) { assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).count >= 0 && t[j].factor >= 1 by { if j < i { assert(t[j] == s[j]); } else if j > i { assert(t[j] == s[j - 1]); } } }
}
pub proof fn lemma_psum_mono(s: Seq<FC>, i: int) requires cntok(s), 0 <= i <= s.len() ensures psum(pre(s, i)) <= psum(s) decreases s.len() - i
{ if i < s.len() { lemma_psum_mono(s, i + 1); lemma_prod_step(s, i); } else { lemma_pre(s); } }
pub proof fn lemma_mult_nonneg(s: Seq<FC>, e: int) requires cntok(s) ensures mult(s, e) >= 0 decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert(s[s.len() - 1] == s.last()); lemma_cnt_sub(s, s.len() - 1); assert(t =~= s.subrange(0, s.len() - 1)); lemma_mult_nonneg(t, e); } }
pub proof fn lemma_mult_pre(s: Seq<FC>, i: int) requires cntok(s), 0 <= i < s.len() ensures forall|k: int| #[trigger] mult(pre(s, i + 1), k) == mult(pre(s, i), k) + (if k == s[i].factor { s[i].count as int } else { 0 }), forall|k: int| #[trigger] mult(pre(s, i + 1), k) <= mult(s, k) decreases s.len() - i
{
    let t = pre(s, i + 1); assert(t.drop_last() =~= pre(s, i)); assert(t.last() == s[i]);
    if i + 1 < s.len() { lemma_mult_pre(s, i + 1); assert(s[i + 1].count >= 0); let j = i + 1; let u = pre(s, j + 1); assert forall|k: int| #[trigger] mult(t, k) <= mult(s, k) by { assert(mult(u, k) <= mult(s, k)); assert(mult(u, k) == mult(pre(s, j), k) + (if k == s[j].factor { s[j].count as int } else { 0 })); } } else { lemma_pre(s); }
}
pub proof fn lemma_pwneg(x: int, e: nat) ensures pw(1, e) == 1, pw(-1, e) == (if e % 2 == 0 { 1int } else { -1 }) decreases e
{ if e > 0 { lemma_pwneg(x, (e - 1) as nat); } }
pub proof fn lemma_kbound(s: Seq<FC>, k: int, i: int) requires cntok(s), 0 <= i < s.len(), k >= 0, prod(s) <= 0x3fff_ffff
    ensures ({ let p = pw(s[i].factor as int, kexp(s, k, i) as nat); 1 <= p <= 0x3fff_ffff && 1 <= kdv(s, k, i) * p <= 0x3fff_ffff && kdv(s, k, i + 1) == kdv(s, k, i) * p })
{
    lemma_kdv(s, k, i); lemma_kdv(s, k, i + 1); lemma_prod_mono(s, i + 1); lemma_pw_pos(s[i].factor as int, kexp(s, k, i) as nat);
    let (a, p) = (kdv(s, k, i), pw(s[i].factor as int, kexp(s, k, i) as nat)); assert(p <= a * p) by(nonlinear_arith) requires a >= 1, p >= 1;
}

pub proof fn lemma_mult_psum(s: Seq<FC>, e: int) requires cntok(s) ensures 0 <= mult(s, e) <= psum(s) decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert(s[s.len() - 1] == s.last()); lemma_cnt_sub(s, s.len() - 1); assert(t =~= s.subrange(0, s.len() - 1)); lemma_mult_psum(t, e); } }
// adding a prime keeps a list of primes
pub proof fn lemma_primef_ins(o: tfacinfo_i32, f: tfacinfo_i32, e: i32, c: i32) requires tfins(o, f, e, c), tfok(o), primef(tfs(o)), is_prime(e as int), c >= 1 ensures primef(tfs(f))
{
    let s = tfs(f); let t = tfs(o);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).count >= 0 && t[i].factor >= 1 by { assert(is_prime(t[i].factor as int)); }
    assert forall|i: int| 0 <= i < s.len() implies is_prime((#[trigger] s[i]).factor as int) && s[i].count >= 1 by {
        let g = s[i].factor as int; lemma_mult_at(s, i); assert(hasf(s, g)); lemma_mult_nonneg(t, g);
        if hasf(t, g) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).factor == g; lemma_mult_at(t, j); }
        assert(mult(s, g) == mult(t, g) + (if g == e { c as int } else { 0 }));
    }
}
