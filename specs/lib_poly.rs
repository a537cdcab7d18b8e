// ---- polynomials with coefficients modulo p --------------------------------
// A polynomial is the function giving its coefficients (zero below 0 and above its degree).
pub type P = spec_fn(int) -> int;
pub open spec fn psum(f: P, n: int) -> int decreases n { if n <= 0 { 0 } else { psum(f, n - 1) + f(n - 1) } }
pub open spec fn fmod(a: int, p: int) -> int { a % p }
pub open spec fn term(a: P, b: P, k: int) -> P { |i: int| a(i) * b(k - i) }
pub open spec fn conv(a: P, b: P, k: int) -> int { psum(term(a, b, k), k + 1) }
pub open spec fn pz() -> P { |k: int| 0int }
pub open spec fn pc(c: int) -> P { |k: int| if k == 0 { c } else { 0int } }
pub open spec fn pxk(n: int) -> P { |k: int| if k == n { 1int } else { 0int } }
pub open spec fn padd(a: P, b: P, p: int) -> P { |k: int| (a(k) + b(k)) % p }
pub open spec fn psub(a: P, b: P, p: int) -> P { |k: int| (a(k) - b(k)) % p }
pub open spec fn pneg(a: P, p: int) -> P { |k: int| (-a(k)) % p }
pub open spec fn pscale(a: P, c: int, p: int) -> P { |k: int| (c * a(k)) % p }
pub open spec fn pmul(a: P, b: P, p: int) -> P { |k: int| if k < 0 { 0 } else { conv(a, b, k) % p } }
pub open spec fn can(a: P, p: int) -> bool { (forall|k: int| 0 <= #[trigger] a(k) < p) && (forall|k: int| k < 0 ==> #[trigger] a(k) == 0) }
pub open spec fn dle(a: P, n: int) -> bool { forall|k: int| k > n ==> #[trigger] a(k) == 0 }
pub open spec fn pol(a: P, p: int) -> bool { can(a, p) && exists|n: int| n >= 0 && dle(a, n) }
pub open spec fn ppow(a: P, e: nat, p: int) -> P decreases e { if e == 0 { pc(1) } else { pmul(a, ppow(a, (e - 1) as nat, p), p) } }

pub proof fn lemma_peq(a: P, b: P) requires forall|k: int| #[trigger] a(k) == b(k) ensures a == b { assert(a =~= b); }
pub proof fn lemma_psum_ext(f: P, g: P, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i)
    ensures psum(f, n) == psum(g, n) decreases n
{ if n > 0 { lemma_psum_ext(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn lemma_psum_mod(f: P, g: P, n: int, p: int)
    requires p > 0, forall|i: int| 0 <= i < n ==> fmod(#[trigger] f(i), p) == fmod(g(i), p)
    ensures psum(f, n) % p == psum(g, n) % p decreases n
{
    if n > 0 {
        lemma_psum_mod(f, g, n - 1, p); assert(fmod(f(n - 1), p) == fmod(g(n - 1), p));
        vstd::arithmetic::div_mod::lemma_add_mod_noop(psum(f, n - 1), f(n - 1), p);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(psum(g, n - 1), g(n - 1), p);
    }
}
pub proof fn lemma_psum_zero(f: P, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0 ensures psum(f, n) == 0 decreases n
{ if n > 0 { lemma_psum_zero(f, n - 1); assert(f(n - 1) == 0); } }
pub proof fn lemma_psum_add(f: P, g: P, h: P, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == f(i) + g(i)
    ensures psum(h, n) == psum(f, n) + psum(g, n) decreases n
{ if n > 0 { lemma_psum_add(f, g, h, n - 1); assert(h(n - 1) == f(n - 1) + g(n - 1)); } }
pub proof fn lemma_psum_scale(f: P, h: P, c: int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == c * f(i)
    ensures psum(h, n) == c * psum(f, n) decreases n
{ if n > 0 { lemma_psum_scale(f, h, c, n - 1); assert(h(n - 1) == c * f(n - 1)); let x = psum(f, n - 1); let y = f(n - 1); assert(c * (x + y) == c * x + c * y) by(nonlinear_arith); } else { assert(c * 0 == 0) by(nonlinear_arith); } }
// only one nonzero term
pub proof fn lemma_psum_single(f: P, n: int, m: int)
    requires 0 <= m < n, forall|i: int| 0 <= i < n && i != m ==> #[trigger] f(i) == 0
    ensures psum(f, n) == f(m) decreases n
{ if n - 1 == m { lemma_psum_zero(f, n - 1); } else { lemma_psum_single(f, n - 1, m); assert(f(n - 1) == 0); } }
// terms from m on are zero
pub proof fn lemma_psum_trunc(f: P, m: int, n: int)
    requires m <= n, forall|i: int| m <= i < n && 0 <= i ==> #[trigger] f(i) == 0
    ensures psum(f, n) == psum(f, m) decreases n - m
{ if n > m { if n > 0 { assert(f(n - 1) == 0); } lemma_psum_trunc(f, m, n - 1); } }
// peel the first term
pub proof fn lemma_psum_head(f: P, g: P, n: int)
    requires n >= 1, forall|i: int| 0 <= i < n - 1 ==> #[trigger] g(i) == f(i + 1)
    ensures psum(f, n) == f(0) + psum(g, n - 1) decreases n
{ if n > 1 { lemma_psum_head(f, g, n - 1); assert(g(n - 2) == f(n - 2 + 1)); } else { assert(psum(f, 0) == 0); assert(psum(f, 1) == psum(f, 0) + f(0)); assert(psum(g, 0) == 0); } }
pub proof fn lemma_psum_rev(f: P, g: P, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == f(n - 1 - i)
    ensures psum(f, n) == psum(g, n) decreases n
{
    if n > 0 {
        let h: P = |i: int| g(i + 1);
        lemma_psum_head(g, h, n);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] h(i) == f(n - 1 - 1 - i) by { assert(g(i + 1) == f(n - 1 - (i + 1))); }
        lemma_psum_rev(f, h, n - 1);
        assert(g(0) == f(n - 1));
    }
}
// sum of sums, either order
pub open spec fn rowsum(t: spec_fn(int, int) -> int, n: int) -> P { |j: int| psum(|i: int| t(i, j), n) }
pub open spec fn colsum(t: spec_fn(int, int) -> int, n: int) -> P { |i: int| psum(|j: int| t(i, j), n) }
pub proof fn lemma_psum_swap(t: spec_fn(int, int) -> int, n: int, m: int)
    requires n >= 0
    ensures psum(rowsum(t, n), m) == psum(colsum(t, m), n) decreases m
{
    if m <= 0 {
        lemma_psum_zero(colsum(t, m), n);
    } else {
        lemma_psum_swap(t, n, m - 1);
        let last: P = |i: int| t(i, m - 1);
        assert(rowsum(t, n)(m - 1) == psum(last, n)) by { lemma_psum_ext(|i: int| t(i, m - 1), last, n); }
        assert forall|i: int| 0 <= i < n implies #[trigger] colsum(t, m)(i) == colsum(t, m - 1)(i) + last(i) by {
            let c: P = |j: int| t(i, j);
            assert(colsum(t, m)(i) == psum(c, m)); assert(colsum(t, m - 1)(i) == psum(c, m - 1));
        }
        lemma_psum_add(colsum(t, m - 1), last, colsum(t, m), n);
    }
}
// ---- convolution
pub proof fn lemma_conv_comm(a: P, b: P, k: int) ensures conv(a, b, k) == conv(b, a, k)
{
    let f = term(a, b, k); let g = term(b, a, k);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] g(i) == f(k + 1 - 1 - i) by { assert(a(k - i) * b(i) == b(i) * a(k - i)) by(nonlinear_arith); assert(k - (k - i) == i); }
    lemma_psum_rev(f, g, k + 1);
}
pub proof fn lemma_conv_add(a: P, b: P, c: P, s: P, k: int)
    requires forall|i: int| 0 <= i <= k ==> #[trigger] s(i) == b(i) + c(i)
    ensures conv(a, s, k) == conv(a, b, k) + conv(a, c, k)
{
    let f = term(a, b, k); let g = term(a, c, k); let h = term(a, s, k);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] h(i) == f(i) + g(i) by {
        assert(s(k - i) == b(k - i) + c(k - i));
        let x = a(i); let y = b(k - i); let z = c(k - i); assert(x * (y + z) == x * y + x * z) by(nonlinear_arith);
    }
    lemma_psum_add(f, g, h, k + 1);
}
pub proof fn lemma_conv_scale(a: P, b: P, s: P, c: int, k: int)
    requires forall|i: int| 0 <= i <= k ==> #[trigger] s(i) == c * b(i)
    ensures conv(a, s, k) == c * conv(a, b, k)
{
    let f = term(a, b, k); let h = term(a, s, k);
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] h(i) == c * f(i) by {
        assert(s(k - i) == c * b(k - i));
        let x = a(i); let y = b(k - i); assert(x * (c * y) == c * (x * y)) by(nonlinear_arith);
    }
    lemma_psum_scale(f, h, c, k + 1);
}
pub proof fn lemma_conv_mod(a: P, b: P, b2: P, k: int, p: int)
    requires p > 0, forall|i: int| 0 <= i <= k ==> fmod(#[trigger] b(i), p) == fmod(b2(i), p)
    ensures conv(a, b, k) % p == conv(a, b2, k) % p
{
    let f = term(a, b, k); let g = term(a, b2, k);
    assert forall|i: int| 0 <= i < k + 1 implies fmod(#[trigger] f(i), p) == fmod(g(i), p) by {
        assert(fmod(b(k - i), p) == fmod(b2(k - i), p));
        vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(a(i), b(k - i), p); vstd::arithmetic::div_mod::lemma_mul_mod_noop_right(a(i), b2(k - i), p);
    }
    lemma_psum_mod(f, g, k + 1, p);
}
pub open spec fn cf(a: P, b: P) -> P { |k: int| conv(a, b, k) }
pub proof fn lemma_conv_assoc(a: P, b: P, c: P, n: int)
    ensures conv(cf(a, b), c, n) == conv(a, cf(b, c), n)
{
    if n >= 0 {
    // T(i, j) = a_i b_(j-i) c_(n-j), for 0 <= i <= j <= n
    let t: spec_fn(int, int) -> int = |i: int, j: int| if i <= j { a(i) * b(j - i) * c(n - j) } else { 0int };
    let l = term(cf(a, b), c, n); let r = term(a, cf(b, c), n);
    assert forall|j: int| 0 <= j < n + 1 implies #[trigger] rowsum(t, n + 1)(j) == l(j) by {
        let u: P = |i: int| t(i, j);
        let v = term(a, b, j);
        assert(rowsum(t, n + 1)(j) == psum(u, n + 1)) by { lemma_psum_ext(|i: int| t(i, j), u, n + 1); }
        lemma_psum_trunc(u, j + 1, n + 1);
        let z = c(n - j);
        assert forall|i: int| 0 <= i < j + 1 implies #[trigger] u(i) == z * v(i) by { let x = a(i); let y = b(j - i); assert(x * y * z == z * (x * y)) by(nonlinear_arith); }
        lemma_psum_scale(v, u, z, j + 1);
        let w = conv(a, b, j);
        assert(z * w == w * z) by(nonlinear_arith);
        assert(l(j) == cf(a, b)(j) * c(n - j));
    }
    lemma_psum_ext(rowsum(t, n + 1), l, n + 1);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] colsum(t, n + 1)(i) == r(i) by {
        let u: P = |j: int| t(i, j);
        assert(colsum(t, n + 1)(i) == psum(u, n + 1)) by { lemma_psum_ext(|j: int| t(i, j), u, n + 1); }
        let v = term(b, c, n - i); let x = a(i);
        let w: P = |j: int| x * v(j);
        assert forall|l: int| 0 <= l < n + 1 - i implies #[trigger] w(l) == u(l + i) by { let y = b(l); let z = c(n - i - l); assert(l + i - i == l); assert(n - (l + i) == n - i - l); assert(u(l + i) == a(i) * b(l) * c(n - i - l)); assert(v(l) == y * z); assert(x * (y * z) == x * y * z) by(nonlinear_arith); }
        lemma_psum_shift(u, w, i, n + 1);
        lemma_psum_scale(v, w, x, n + 1 - i);
        assert(r(i) == a(i) * cf(b, c)(n - i));
    }
    lemma_psum_ext(colsum(t, n + 1), r, n + 1);
    lemma_psum_swap(t, n + 1, n + 1);
    }
}
// u is zero below m and equals w shifted by m from there on
pub proof fn lemma_psum_shift(u: P, w: P, m: int, n: int)
    requires 0 <= m <= n, forall|i: int| 0 <= i < m ==> #[trigger] u(i) == 0, forall|i: int| 0 <= i < n - m ==> #[trigger] w(i) == u(i + m)
    ensures psum(u, n) == psum(w, n - m) decreases n
{
    if n == m { lemma_psum_zero(u, n); } else { lemma_psum_shift(u, w, m, n - 1); assert(w(n - 1 - m) == u(n - 1 - m + m)); }
}
// ---- ring laws for canonical polynomials
pub proof fn lemma_pmul_can(a: P, b: P, p: int) requires p > 0 ensures can(pmul(a, b, p), p)
{ assert forall|k: int| 0 <= #[trigger] pmul(a, b, p)(k) < p by { assert(0 <= conv(a, b, k) % p < p) by(nonlinear_arith) requires p > 0; } }
pub proof fn lemma_padd_can(a: P, b: P, p: int) requires p > 0, can(a, p), can(b, p) ensures can(padd(a, b, p), p), can(psub(a, b, p), p), can(pneg(a, p), p)
{
    assert forall|k: int| 0 <= #[trigger] padd(a, b, p)(k) < p by { assert(0 <= (a(k) + b(k)) % p < p) by(nonlinear_arith) requires p > 0; }
    assert forall|k: int| 0 <= #[trigger] psub(a, b, p)(k) < p by { assert(0 <= (a(k) - b(k)) % p < p) by(nonlinear_arith) requires p > 0; }
    assert forall|k: int| 0 <= #[trigger] pneg(a, p)(k) < p by { assert(0 <= (-a(k)) % p < p) by(nonlinear_arith) requires p > 0; }
    assert(0int % p == 0) by(nonlinear_arith) requires p > 0;
    assert(padd(a, b, p)(-1) == 0);
    assert forall|k: int| k < 0 implies #[trigger] padd(a, b, p)(k) == 0 by { assert(a(k) == 0 && b(k) == 0); }
    assert forall|k: int| k < 0 implies #[trigger] psub(a, b, p)(k) == 0 by { assert(a(k) == 0 && b(k) == 0); }
    assert forall|k: int| k < 0 implies #[trigger] pneg(a, p)(k) == 0 by { assert(a(k) == 0); }
}
pub proof fn lemma_pmul_comm(a: P, b: P, p: int) ensures pmul(a, b, p) == pmul(b, a, p)
{
    assert forall|k: int| #[trigger] pmul(a, b, p)(k) == pmul(b, a, p)(k) by { lemma_conv_comm(a, b, k); }
    lemma_peq(pmul(a, b, p), pmul(b, a, p));
}
pub proof fn lemma_pmul_assoc(a: P, b: P, c: P, p: int) requires p > 0 ensures pmul(pmul(a, b, p), c, p) == pmul(a, pmul(b, c, p), p)
{
    assert forall|k: int| #[trigger] pmul(pmul(a, b, p), c, p)(k) == pmul(a, pmul(b, c, p), p)(k) by {
        if k >= 0 {
            let x = pmul(a, b, p); let y = pmul(b, c, p);
            lemma_conv_comm(x, c, k); lemma_conv_comm(cf(a, b), c, k);
            assert forall|i: int| 0 <= i <= k implies fmod(#[trigger] x(i), p) == fmod(cf(a, b)(i), p) by { vstd::arithmetic::div_mod::lemma_mod_twice(conv(a, b, i), p); }
            assert forall|i: int| 0 <= i <= k implies fmod(#[trigger] y(i), p) == fmod(cf(b, c)(i), p) by { vstd::arithmetic::div_mod::lemma_mod_twice(conv(b, c, i), p); }
            lemma_conv_mod(c, x, cf(a, b), k, p); lemma_conv_mod(a, y, cf(b, c), k, p);
            lemma_conv_assoc(a, b, c, k);
        }
    }
    lemma_peq(pmul(pmul(a, b, p), c, p), pmul(a, pmul(b, c, p), p));
}
pub proof fn lemma_pmul_dist(a: P, b: P, c: P, p: int) requires p > 0
    ensures pmul(a, padd(b, c, p), p) == padd(pmul(a, b, p), pmul(a, c, p), p), pmul(padd(b, c, p), a, p) == padd(pmul(b, a, p), pmul(c, a, p), p),
        pmul(a, psub(b, c, p), p) == psub(pmul(a, b, p), pmul(a, c, p), p), pmul(psub(b, c, p), a, p) == psub(pmul(b, a, p), pmul(c, a, p), p),
{
    assert(0int % p == 0) by(nonlinear_arith) requires p > 0;
    let s: P = |k: int| b(k) + c(k); let d: P = |k: int| b(k) - c(k); let n: P = |k: int| (-1) * c(k);
    assert forall|k: int| #[trigger] pmul(a, padd(b, c, p), p)(k) == padd(pmul(a, b, p), pmul(a, c, p), p)(k) by {
        if k >= 0 {
            assert forall|i: int| 0 <= i <= k implies fmod(#[trigger] padd(b, c, p)(i), p) == fmod(s(i), p) by { vstd::arithmetic::div_mod::lemma_mod_twice(s(i), p); }
            lemma_conv_mod(a, padd(b, c, p), s, k, p);
            lemma_conv_add(a, b, c, s, k);
            vstd::arithmetic::div_mod::lemma_add_mod_noop(conv(a, b, k), conv(a, c, k), p);
        }
    }
    assert forall|k: int| #[trigger] pmul(a, psub(b, c, p), p)(k) == psub(pmul(a, b, p), pmul(a, c, p), p)(k) by {
        if k >= 0 {
            assert forall|i: int| 0 <= i <= k implies fmod(#[trigger] psub(b, c, p)(i), p) == fmod(d(i), p) by { vstd::arithmetic::div_mod::lemma_mod_twice(d(i), p); }
            lemma_conv_mod(a, psub(b, c, p), d, k, p);
            lemma_conv_scale(a, c, n, -1, k);
            lemma_conv_add(a, b, n, d, k);
            vstd::arithmetic::div_mod::lemma_sub_mod_noop(conv(a, b, k), conv(a, c, k), p);
        }
    }
    lemma_peq(pmul(a, padd(b, c, p), p), padd(pmul(a, b, p), pmul(a, c, p), p));
    lemma_peq(pmul(a, psub(b, c, p), p), psub(pmul(a, b, p), pmul(a, c, p), p));
    lemma_pmul_comm(a, padd(b, c, p), p); lemma_pmul_comm(a, psub(b, c, p), p); lemma_pmul_comm(a, b, p); lemma_pmul_comm(a, c, p);
}
pub proof fn lemma_modlin(x: int, y: int, z: int, p: int) requires p > 0, 0 <= x < p, 0 <= y < p, 0 <= z < p
    ensures ((x + y) % p + z) % p == (x + (y + z) % p) % p, (x - (y + z) % p) % p == ((x - y) % p - z) % p, (x + (y - z) % p) % p == ((x + y) % p - z) % p, ((x - y) % p - z) % p == ((x - z) % p - y) % p,
        ((x - y) % p + y) % p == x, ((x + y) % p - y) % p == x, (x - (y - z) % p) % p == ((x - y) % p + z) % p, ((-y) % p + x) % p == (x - y) % p, x % p == x, 0int % p == 0,
{
    vstd::arithmetic::div_mod::lemma_small_mod(x as nat, p as nat); vstd::arithmetic::div_mod::lemma_small_mod(0, p as nat);
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(z, x + y, p); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(x, y + z, p);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop_right(x, y + z, p); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(-z, x - y, p); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(x, y - z, p); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(-z, x + y, p);
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(-y, x - z, p); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(y, x - y, p); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(-y, x + y, p);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop_right(x, y - z, p); vstd::arithmetic::div_mod::lemma_add_mod_noop_right(z, x - y, p);
    vstd::arithmetic::div_mod::lemma_add_mod_noop_right(x, -y, p);
}
pub proof fn lemma_padd_laws(a: P, b: P, c: P, p: int) requires p > 0, can(a, p), can(b, p), can(c, p)
    ensures padd(a, b, p) == padd(b, a, p), padd(padd(a, b, p), c, p) == padd(a, padd(b, c, p), p), padd(a, pz(), p) == a, padd(pz(), a, p) == a, psub(a, pz(), p) == a,
        psub(a, a, p) == pz(), padd(psub(a, b, p), b, p) == a, psub(padd(a, b, p), b, p) == a, psub(a, padd(b, c, p), p) == psub(psub(a, b, p), c, p), padd(a, psub(b, c, p), p) == psub(padd(a, b, p), c, p), psub(psub(a, b, p), c, p) == psub(psub(a, c, p), b, p),
        psub(a, psub(b, c, p), p) == padd(psub(a, b, p), c, p), psub(pz(), a, p) == pneg(a, p), padd(pneg(b, p), a, p) == psub(a, b, p),
{
    lemma_peq(padd(a, b, p), padd(b, a, p));
    assert forall|k: int| #[trigger] padd(padd(a, b, p), c, p)(k) == padd(a, padd(b, c, p), p)(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(padd(padd(a, b, p), c, p), padd(a, padd(b, c, p), p));
    assert forall|k: int| #[trigger] padd(a, pz(), p)(k) == a(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(padd(a, pz(), p), a);
    assert forall|k: int| #[trigger] padd(pz(), a, p)(k) == a(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(padd(pz(), a, p), a);
    assert forall|k: int| #[trigger] psub(a, pz(), p)(k) == a(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(psub(a, pz(), p), a);
    assert forall|k: int| #[trigger] psub(a, a, p)(k) == pz()(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(psub(a, a, p), pz());
    assert forall|k: int| #[trigger] padd(psub(a, b, p), b, p)(k) == a(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(padd(psub(a, b, p), b, p), a);
    assert forall|k: int| #[trigger] psub(padd(a, b, p), b, p)(k) == a(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(psub(padd(a, b, p), b, p), a);
    assert forall|k: int| #[trigger] psub(a, padd(b, c, p), p)(k) == psub(psub(a, b, p), c, p)(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(psub(a, padd(b, c, p), p), psub(psub(a, b, p), c, p));
    assert forall|k: int| #[trigger] padd(a, psub(b, c, p), p)(k) == psub(padd(a, b, p), c, p)(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(padd(a, psub(b, c, p), p), psub(padd(a, b, p), c, p));
    assert forall|k: int| #[trigger] psub(psub(a, b, p), c, p)(k) == psub(psub(a, c, p), b, p)(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(psub(psub(a, b, p), c, p), psub(psub(a, c, p), b, p));
    assert forall|k: int| #[trigger] psub(a, psub(b, c, p), p)(k) == padd(psub(a, b, p), c, p)(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(psub(a, psub(b, c, p), p), padd(psub(a, b, p), c, p));
    assert forall|k: int| #[trigger] psub(pz(), a, p)(k) == pneg(a, p)(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(psub(pz(), a, p), pneg(a, p));
    assert forall|k: int| #[trigger] padd(pneg(b, p), a, p)(k) == psub(a, b, p)(k) by { assert(0 <= a(k) < p && 0 <= b(k) < p && 0 <= c(k) < p); lemma_modlin(a(k), b(k), c(k), p); lemma_modlin(a(k), 0, 0, p); }
    lemma_peq(padd(pneg(b, p), a, p), psub(a, b, p));
}
// multiplication by c x^n
pub open spec fn pmono(c: int, n: int) -> P { |k: int| if k == n { c } else { 0int } }
pub proof fn lemma_pmul_mono(c: int, n: int, a: P, p: int)
    requires p > 0, can(a, p), n >= 0
    ensures forall|k: int| #[trigger] pmul(pmono(c, n), a, p)(k) == (c * a(k - n)) % p
{
    assert(0int % p == 0) by(nonlinear_arith) requires p > 0;
    assert(c * 0 == 0) by(nonlinear_arith);
    assert forall|k: int| #[trigger] pmul(pmono(c, n), a, p)(k) == (c * a(k - n)) % p by {
        if k >= 0 {
            let f = term(pmono(c, n), a, k);
            assert forall|i: int| 0 <= i < k + 1 && i != n implies #[trigger] f(i) == 0 by { let y = a(k - i); assert(0 * y == 0) by(nonlinear_arith); }
            if n <= k { lemma_psum_single(f, k + 1, n); } else { lemma_psum_zero(f, k + 1); assert(a(k - n) == 0); }
        } else { assert(a(k - n) == 0); }
    }
}
pub proof fn lemma_pmul_xk(n: int, a: P, p: int)
    requires p > 0, can(a, p), n >= 0
    ensures forall|k: int| #[trigger] pmul(pxk(n), a, p)(k) == a(k - n)
{
    lemma_peq(pxk(n), pmono(1, n));
    lemma_pmul_mono(1, n, a, p);
    assert forall|k: int| #[trigger] pmul(pxk(n), a, p)(k) == a(k - n) by { assert(0 <= a(k - n) < p); vstd::arithmetic::div_mod::lemma_small_mod(a(k - n) as nat, p as nat); }
}
pub proof fn lemma_pmul_one(a: P, p: int) requires p > 0, can(a, p) ensures pmul(pc(1), a, p) == a, pmul(a, pc(1), p) == a
{
    lemma_peq(pc(1), pxk(0));
    lemma_pmul_xk(0, a, p);
    assert forall|k: int| #[trigger] pmul(pc(1), a, p)(k) == a(k) by { assert(pmul(pxk(0), a, p)(k) == a(k - 0)); }
    lemma_peq(pmul(pc(1), a, p), a); lemma_pmul_comm(pc(1), a, p);
}
pub proof fn lemma_pmul_zero(a: P, p: int) requires p > 0 ensures pmul(pz(), a, p) == pz(), pmul(a, pz(), p) == pz()
{
    assert(0int % p == 0) by(nonlinear_arith) requires p > 0;
    assert forall|k: int| #[trigger] pmul(pz(), a, p)(k) == pz()(k) by {
        let f = term(pz(), a, k);
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] f(i) == 0 by { let y = a(k - i); assert(0 * y == 0) by(nonlinear_arith); }
        lemma_psum_zero(f, k + 1);
    }
    lemma_peq(pmul(pz(), a, p), pz()); lemma_pmul_comm(pz(), a, p);
}
// degrees
pub proof fn lemma_pmul_dle(a: P, b: P, n: int, m: int, p: int)
    requires p > 0, dle(a, n), dle(b, m), n >= 0, m >= 0, can(a, p), can(b, p)
    ensures dle(pmul(a, b, p), n + m), pmul(a, b, p)(n + m) == (a(n) * b(m)) % p
{
    assert(0int % p == 0) by(nonlinear_arith) requires p > 0;
    assert forall|k: int| k > n + m implies #[trigger] pmul(a, b, p)(k) == 0 by {
        let f = term(a, b, k);
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] f(i) == 0 by { let x = a(i); let y = b(k - i); if i > n { assert(x == 0); assert(0 * y == 0) by(nonlinear_arith); } else { assert(y == 0); assert(x * 0 == 0) by(nonlinear_arith); } }
        lemma_psum_zero(f, k + 1);
    }
    let f = term(a, b, n + m);
    assert forall|i: int| 0 <= i < n + m + 1 && i != n implies #[trigger] f(i) == 0 by { let x = a(i); let y = b(n + m - i); if i > n { assert(x == 0); assert(0 * y == 0) by(nonlinear_arith); } else { assert(y == 0); assert(x * 0 == 0) by(nonlinear_arith); } }
    lemma_psum_single(f, n + m + 1, n);
}
pub proof fn lemma_pol_add(a: P, b: P, p: int) requires p > 0, pol(a, p), pol(b, p) ensures pol(padd(a, b, p), p), pol(psub(a, b, p), p), pol(pneg(a, p), p)
{
    lemma_padd_can(a, b, p);
    assert(0int % p == 0) by(nonlinear_arith) requires p > 0;
    let n = choose|n: int| n >= 0 && dle(a, n); let m = choose|m: int| m >= 0 && dle(b, m);
    let s = if n > m { n } else { m };
    assert forall|k: int| k > s implies #[trigger] padd(a, b, p)(k) == 0 by { assert(a(k) == 0 && b(k) == 0); }
    assert forall|k: int| k > s implies #[trigger] psub(a, b, p)(k) == 0 by { assert(a(k) == 0 && b(k) == 0); }
    assert forall|k: int| k > s implies #[trigger] pneg(a, p)(k) == 0 by { assert(a(k) == 0); }
    assert(dle(padd(a, b, p), s)); assert(dle(psub(a, b, p), s)); assert(dle(pneg(a, p), s));
}
pub proof fn lemma_pol_mul(a: P, b: P, p: int) requires p > 0, pol(a, p), pol(b, p) ensures pol(pmul(a, b, p), p)
{
    lemma_pmul_can(a, b, p);
    let n = choose|n: int| n >= 0 && dle(a, n); let m = choose|m: int| m >= 0 && dle(b, m);
    lemma_pmul_dle(a, b, n, m, p);
    assert(n + m >= 0 && dle(pmul(a, b, p), n + m));
}
pub proof fn lemma_pol_const(c: int, p: int) requires p > 0, 0 <= c < p ensures pol(pc(c), p), pol(pz(), p), p > 1 ==> pol(pc(1), p)
{ assert(dle(pc(c), 0)); assert(dle(pz(), 0)); assert(dle(pc(1), 0)); }
pub proof fn lemma_pol_xk(n: int, p: int) requires p > 1, n >= 0 ensures pol(pxk(n), p), can(pxk(n), p)
{ assert(dle(pxk(n), n)); }
// powers
pub proof fn lemma_ppow_can(a: P, e: nat, p: int) requires p > 1 ensures can(ppow(a, e, p), p) decreases e
{ if e > 0 { lemma_pmul_can(a, ppow(a, (e - 1) as nat, p), p); } else { lemma_pol_const(1, p); } }
pub proof fn lemma_ppow_add(a: P, m: nat, n: nat, p: int) requires p > 1, can(a, p)
    ensures ppow(a, m + n, p) == pmul(ppow(a, m, p), ppow(a, n, p), p) decreases m
{
    if m == 0 { lemma_ppow_can(a, n, p); lemma_pmul_one(ppow(a, n, p), p); } else {
        lemma_ppow_add(a, (m - 1) as nat, n, p);
        assert((m + n - 1) as nat == (m - 1) as nat + n);
        lemma_pmul_assoc(a, ppow(a, (m - 1) as nat, p), ppow(a, n, p), p);
    }
}
// (a^2)^n = a^(2n)
pub proof fn lemma_ppow_sq(a: P, n: nat, p: int) requires p > 1, can(a, p)
    ensures ppow(pmul(a, a, p), n, p) == ppow(a, 2 * n, p) decreases n
{
    lemma_pmul_can(a, a, p);
    if n > 0 {
        lemma_ppow_sq(a, (n - 1) as nat, p);
        let r = ppow(a, (2 * n - 2) as nat, p);
        assert((2 * n - 1 - 1) as nat == (2 * n - 2) as nat);
        assert(ppow(a, (2 * n) as nat, p) == pmul(a, ppow(a, (2 * n - 1) as nat, p), p));
        assert(ppow(a, (2 * n - 1) as nat, p) == pmul(a, r, p));
        assert(2 * ((n - 1) as nat) == (2 * n - 2) as nat);
        lemma_pmul_assoc(a, a, r, p);
    }
}
// one step of binary powering:  acc * x^e  is preserved
pub proof fn lemma_ppow_step(acc: P, x: P, e: int, p: int)
    requires p > 1, can(x, p), can(acc, p), e > 0
    ensures e % 2 == 1 ==> pmul(pmul(acc, x, p), ppow(pmul(x, x, p), (e / 2) as nat, p), p) == pmul(acc, ppow(x, e as nat, p), p),
        e % 2 == 0 ==> pmul(acc, ppow(pmul(x, x, p), (e / 2) as nat, p), p) == pmul(acc, ppow(x, e as nat, p), p),
{
    let h = (e / 2) as nat;
    lemma_ppow_sq(x, h, p);
    if e % 2 == 1 {
        assert((e - 1) as nat == 2 * h);
        lemma_pmul_assoc(acc, x, ppow(x, 2 * h, p), p);
    } else { assert(e as nat == 2 * h); }
}
pub proof fn lemma_ppow_0(acc: P, x: P, p: int) requires p > 0, can(acc, p) ensures pmul(acc, ppow(x, 0, p), p) == acc { lemma_pmul_one(acc, p); }
// ---- divisibility
pub open spec fn pdiv(d: P, a: P, p: int) -> bool { exists|q: P| pol(q, p) && a == #[trigger] pmul(q, d, p) }
pub open spec fn pcomb(d: P, a: P, b: P, m: P, n: P, p: int) -> bool { d == padd(pmul(m, a, p), pmul(n, b, p), p) }
pub open spec fn pgcd(d: P, a: P, b: P, p: int) -> bool { pdiv(d, a, p) && pdiv(d, b, p) && (forall|e: P| pol(e, p) && pdiv(e, a, p) && pdiv(e, b, p) ==> #[trigger] pdiv(e, d, p)) }
pub proof fn lemma_pdiv_intro(d: P, a: P, q: P, p: int) requires pol(q, p), a == pmul(q, d, p) ensures pdiv(d, a, p) {}
pub proof fn lemma_pdiv_refl(a: P, p: int) requires p > 1, can(a, p) ensures pdiv(a, a, p), pdiv(a, pz(), p)
{ lemma_pol_const(0, p); lemma_pmul_one(a, p); lemma_pmul_zero(a, p); lemma_pdiv_intro(a, a, pc(1), p); lemma_pdiv_intro(a, pz(), pz(), p); }
pub proof fn lemma_pdiv_lin(d: P, a: P, b: P, q: P, p: int)
    requires p > 1, pol(d, p), pdiv(d, a, p), pdiv(d, b, p), pol(q, p)
    ensures pdiv(d, pmul(q, a, p), p), pdiv(d, padd(a, b, p), p), pdiv(d, psub(a, b, p), p)
{
    let u = choose|u: P| pol(u, p) && a == #[trigger] pmul(u, d, p); let v = choose|v: P| pol(v, p) && b == #[trigger] pmul(v, d, p);
    lemma_pmul_assoc(q, u, d, p); lemma_pol_mul(q, u, p); lemma_pdiv_intro(d, pmul(q, a, p), pmul(q, u, p), p);
    lemma_pmul_dist(d, u, v, p); lemma_pol_add(u, v, p); lemma_pdiv_intro(d, padd(a, b, p), padd(u, v, p), p); lemma_pdiv_intro(d, psub(a, b, p), psub(u, v, p), p);
}
// a = q b + r: the common divisors of (a, b) and of (b, r) are the same
pub proof fn lemma_pgcd_step(a: P, b: P, q: P, r: P, d: P, p: int)
    requires p > 1, pol(a, p), pol(b, p), pol(q, p), pol(r, p), pol(d, p), a == padd(pmul(q, b, p), r, p), pgcd(d, b, r, p)
    ensures pgcd(d, a, b, p)
{
    lemma_pdiv_lin(d, b, r, q, p); lemma_pdiv_lin(d, pmul(q, b, p), r, q, p);
    assert forall|e: P| pol(e, p) && pdiv(e, a, p) && pdiv(e, b, p) implies #[trigger] pdiv(e, d, p) by {
        lemma_pmul_can(q, b, p);
        lemma_padd_laws(pmul(q, b, p), r, r, p); lemma_padd_laws(r, pmul(q, b, p), r, p);
        lemma_pdiv_lin(e, b, b, q, p); lemma_pdiv_lin(e, a, pmul(q, b, p), q, p);
        assert(psub(a, pmul(q, b, p), p) == r);
    }
}
pub proof fn lemma_pgcd_base(a: P, b: P, q: P, p: int) requires p > 1, pol(a, p), pol(b, p), pol(q, p), a == padd(pmul(q, b, p), pz(), p) ensures pgcd(b, a, b, p)
{ lemma_pmul_can(q, b, p); lemma_padd_laws(pmul(q, b, p), pz(), pz(), p); lemma_pdiv_refl(b, p); lemma_pdiv_intro(b, a, q, p); }
// formal derivative
pub open spec fn pderiv(a: P, p: int) -> P { |k: int| if k < 0 { 0int } else { ((k + 1) * a(k + 1)) % p } }
pub open spec fn isdeg(a: P, d: int) -> bool { d >= 0 && dle(a, d) && (d == 0 || a(d) != 0) }
pub proof fn lemma_isdeg_uniq(a: P, d: int, e: int) requires isdeg(a, d), isdeg(a, e) ensures d == e { if d < e { assert(a(e) == 0); } if e < d { assert(a(d) == 0); } }
pub open spec fn prem(r: P, b: P) -> bool { forall|d: int| #[trigger] isdeg(b, d) ==> dle(r, d - 1) }
pub open spec fn qdeg(q: P, a: P, b: P) -> bool { forall|d: int, e: int| #[trigger] isdeg(a, d) && #[trigger] isdeg(b, e) ==> dle(q, d - e) }
// ---- Euclid
pub proof fn lemma_pgcd_zero(a: P, b: P, p: int) requires p > 1, can(a, p), can(b, p) ensures a == pz() ==> pgcd(b, a, b, p) && pcomb(b, a, b, pz(), pc(1), p), b == pz() ==> pgcd(a, a, b, p) && pcomb(a, a, b, pc(1), pz(), p)
{
    lemma_pdiv_refl(a, p); lemma_pdiv_refl(b, p); lemma_pmul_zero(a, p); lemma_pmul_zero(b, p); lemma_pmul_one(a, p); lemma_pmul_one(b, p); lemma_padd_laws(a, a, a, p); lemma_padd_laws(b, b, b, p);
}
pub open spec fn gtrans(c: P, d: P, a: P, b: P, p: int) -> bool { forall|e: P| pol(e, p) && #[trigger] pgcd(e, c, d, p) ==> pgcd(e, a, b, p) }
pub proof fn lemma_gtrans_step(a: P, b: P, c: P, d: P, q: P, r: P, p: int) requires p > 1, gtrans(c, d, a, b, p), pol(c, p), pol(d, p), pol(q, p), pol(r, p), c == padd(pmul(q, d, p), r, p) ensures gtrans(d, r, a, b, p)
{ assert forall|e: P| pol(e, p) && #[trigger] pgcd(e, d, r, p) implies pgcd(e, a, b, p) by { lemma_pgcd_step(c, d, q, r, e, p); assert(pgcd(e, c, d, p)); } }
pub proof fn lemma_gtrans_end(a: P, b: P, c: P, d: P, q: P, p: int) requires p > 1, gtrans(c, d, a, b, p), pol(c, p), pol(d, p), pol(q, p), c == padd(pmul(q, d, p), pz(), p) ensures pgcd(d, a, b, p) { lemma_pgcd_base(c, d, q, p); assert(pgcd(d, c, d, p)); }
// Blankinship: c = M a + N b, d = m a + n b, c = q d + r  gives  r = (M - q m) a + (N - q n) b
pub proof fn lemma_pcomb_step(a: P, b: P, c: P, d: P, q: P, r: P, mm: P, nn: P, m: P, n: P, p: int)
    requires p > 1, can(a, p), can(b, p), can(q, p), can(r, p), can(mm, p), can(nn, p), can(m, p), can(n, p), pcomb(c, a, b, mm, nn, p), pcomb(d, a, b, m, n, p), c == padd(pmul(q, d, p), r, p)
    ensures pcomb(r, a, b, psub(mm, pmul(q, m, p), p), psub(nn, pmul(q, n, p), p), p)
{
    let qm = pmul(q, m, p); let qn = pmul(q, n, p);
    lemma_pmul_can(q, d, p); lemma_pmul_can(q, m, p); lemma_pmul_can(q, n, p); lemma_pmul_can(mm, a, p); lemma_pmul_can(nn, b, p); lemma_pmul_can(qm, a, p); lemma_pmul_can(qn, b, p); lemma_pmul_can(m, a, p); lemma_pmul_can(n, b, p);
    lemma_pmul_dist(a, mm, qm, p); lemma_pmul_dist(b, nn, qn, p);
    lemma_pmul_dist(q, pmul(m, a, p), pmul(n, b, p), p); lemma_pmul_assoc(q, m, a, p); lemma_pmul_assoc(q, n, b, p);
    let x = pmul(mm, a, p); let y = pmul(nn, b, p); let u = pmul(qm, a, p); let v = pmul(qn, b, p);
    assert(c == padd(x, y, p)); assert(pmul(q, d, p) == padd(u, v, p));
    // r = (x + y) - (u + v) = (x - u) + (y - v)
    lemma_padd_laws(padd(u, v, p), r, r, p); lemma_padd_laws(r, padd(u, v, p), r, p);
    assert(r == psub(c, padd(u, v, p), p));
    assert forall|k: int| #[trigger] r(k) == padd(psub(x, u, p), psub(y, v, p), p)(k) by {
        let xx = x(k); let yy = y(k); let uu = u(k); let vv = v(k);
        assert(r(k) == ((xx + yy) % p - (uu + vv) % p) % p);
        vstd::arithmetic::div_mod::lemma_sub_mod_noop(xx + yy, uu + vv, p);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(xx - uu, yy - vv, p);
    }
    lemma_peq(r, padd(psub(x, u, p), psub(y, v, p), p));
}
// Bezout combinations
pub open spec fn pcxw(g: P, a: P, b: P, m: P, n: P, p: int) -> bool { pol(m, p) && pol(n, p) && pcomb(g, a, b, m, n, p) }
pub open spec fn pcx(g: P, a: P, b: P, p: int) -> bool { exists|m: P, n: P| #[trigger] pcxw(g, a, b, m, n, p) }
pub proof fn lemma_pcx_begin(a: P, b: P, p: int) requires p > 1, can(a, p), can(b, p) ensures pcx(a, a, b, p), pcx(b, a, b, p)
{
    lemma_pol_const(1, p); lemma_pmul_one(a, p); lemma_pmul_one(b, p); lemma_pmul_zero(a, p); lemma_pmul_zero(b, p); lemma_padd_laws(a, b, b, p); lemma_padd_laws(b, a, a, p);
    assert(pcxw(a, a, b, pc(1), pz(), p)); assert(pcxw(b, a, b, pz(), pc(1), p));
}
pub proof fn lemma_pcx_step(a: P, b: P, c: P, d: P, q: P, r: P, p: int) requires p > 1, can(a, p), can(b, p), pol(q, p), can(r, p), pcx(c, a, b, p), pcx(d, a, b, p), c == padd(pmul(q, d, p), r, p) ensures pcx(r, a, b, p)
{
    let (mm, nn) = choose|m: P, n: P| #[trigger] pcxw(c, a, b, m, n, p); let (m, n) = choose|m: P, n: P| #[trigger] pcxw(d, a, b, m, n, p);
    lemma_pcomb_step(a, b, c, d, q, r, mm, nn, m, n, p);
    lemma_pol_mul(q, m, p); lemma_pol_mul(q, n, p); lemma_pol_add(mm, pmul(q, m, p), p); lemma_pol_add(nn, pmul(q, n, p), p);
    assert(pcxw(r, a, b, psub(mm, pmul(q, m, p), p), psub(nn, pmul(q, n, p), p), p));
}
// order by leading coefficients
pub open spec fn ptr(b: P, i: int) -> P { |k: int| if k < i { b(k) } else { 0int } }
pub open spec fn plt(a: P, b: P) -> bool { exists|k: int| plt_at(a, b, k) }
pub open spec fn plt_at(a: P, b: P, k: int) -> bool { a(k) < b(k) && forall|m: int| m > k ==> #[trigger] a(m) == b(m) }
pub proof fn lemma_plt_excl(a: P, b: P) ensures !(plt(a, b) && plt(b, a)), !plt(a, a), plt(a, b) ==> a != b
{
    if plt(a, b) && plt(b, a) { let k = choose|k: int| plt_at(a, b, k); let j = choose|k: int| plt_at(b, a, k); if k < j { assert(a(j) == b(j)); } if j < k { assert(b(k) == a(k)); } }
    if plt(a, a) { let k = choose|k: int| plt_at(a, a, k); }
}
pub open spec fn dirspec(dir: int, a: P, b: P) -> bool { (dir < 0 ==> dir == -1 && plt(a, b) && !plt(b, a) && a != b) && (dir > 0 ==> dir == 1 && plt(b, a) && !plt(a, b) && a != b) && (dir == 0 ==> a == b && !plt(a, b)) }
pub open spec fn cmpval(op: int, a: P, b: P) -> bool { if op == 20 { plt(a, b) } else if op == 21 { plt(a, b) || a == b } else if op == 22 { a == b } else if op == 23 { a != b } else if op == 24 { plt(b, a) || a == b } else { plt(b, a) } }
