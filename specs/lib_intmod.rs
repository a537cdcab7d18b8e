// ---- intmod_t views ----
pub open spec fn mset(a: intmod_t) -> bool { a.modulus >= 1 && 0 <= a.residue < a.modulus }
pub open spec fn mok(a: intmod_t) -> bool { a.modulus == 0 || mset(a) }
pub open spec fn mok2(a: intmod_t) -> bool { mok(a) && a.modulus != 1 }
pub open spec fn mmix(a: intmod_t, b: intmod_t) -> bool { a.modulus == 0 || b.modulus == 0 || a.modulus != b.modulus }
pub open spec fn mquot(r: int, a: int, b: int, m: int) -> bool { (r * b) % m == a }
pub open spec fn mexp_inv(a: int, e0: int, rv: int, xp: int, e: nat, m: int) -> bool {
    if e0 >= 0 { cong(rv * pw(xp, e), pw(a, e0 as nat), m) }
    else { exists|x: int| #[trigger] is_inv(a, x, m) && cong(rv * pw(xp, e), pw(x, (-e0) as nat), m) }
}
pub proof fn lemma_mexp_step(a: int, e0: int, rv: int, xp: int, e: nat, m: int)
    requires m >= 1, e >= 1, mexp_inv(a, e0, rv, xp, e, m)
    ensures e % 2 == 1 ==> mexp_inv(a, e0, (rv * xp) % m, (xp * xp) % m, e / 2, m),
        e % 2 == 0 ==> mexp_inv(a, e0, rv, (xp * xp) % m, e / 2, m),
{
    if e0 >= 0 { lemma_modpow_step(pw(a, e0 as nat), rv, xp, e, m); }
    else {
        let x = choose|x: int| #[trigger] is_inv(a, x, m) && cong(rv * pw(xp, e), pw(x, (-e0) as nat), m);
        lemma_modpow_step(pw(x, (-e0) as nat), rv, xp, e, m);
    }
}
pub proof fn lemma_mexp_end(a: int, e0: int, rv: int, xp: int, m: int)
    requires m >= 2, 0 <= rv < m, mexp_inv(a, e0, rv, xp, 0, m)
    ensures e0 >= 0 ==> rv == pw(a, e0 as nat) % m, e0 < 0 ==> is_inv(pw(a, (-e0) as nat), rv, m)
{
    assert(pw(xp, 0) == 1); assert(rv * 1 == rv);
    lemma_small_mod(rv as nat, m as nat);
    if e0 >= 0 { lemma_cong_mod(rv, pw(a, e0 as nat), m); }
    else {
        let x = choose|x: int| #[trigger] is_inv(a, x, m) && cong(rv * pw(xp, 0), pw(x, (-e0) as nat), m);
        let k = (-e0) as nat;
        lemma_cong_mod(rv, pw(x, k), m);
        lemma_inv_pow(a, x, k, m);
        lemma_mulmod(pw(a, k), pw(x, k), m);
    }
}
pub proof fn lemma_pw_one(x: int) ensures 1 * x == x {}
pub proof fn lemma_trem_mod2(a: int, m: int) requires m >= 1 ensures trem(a, m) % m == a % m, -m < trem(a, m) < m
{
    lemma_trem_pos(a, m); lemma_mod_bound(a, m);
    if a >= 0 { lemma_small_mod((a % m) as nat, m as nat); }
    else if trem(a, m) == 0 && a % m == 0 { lemma_small_mod(0, m as nat); }
    else { lemma_mod_add_multiples_vanish(trem(a, m), m); lemma_small_mod((a % m) as nat, m as nat); }
}
pub proof fn lemma_mul_i32(a: int, b: int)
    requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000
    ensures -0x4000_0000_0000_0000 <= a * b <= 0x4000_0000_0000_0000
{ assert(-0x4000_0000_0000_0000 <= a * b <= 0x4000_0000_0000_0000) by(nonlinear_arith) requires -0x8000_0000 <= a < 0x8000_0000, -0x8000_0000 <= b < 0x8000_0000; }
pub proof fn lemma_mul_nonneg(a: int, b: int) ensures a >= 0 && b >= 0 ==> a * b >= 0
{ if a >= 0 && b >= 0 { assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; } }
pub proof fn lemma_cop_zero(m: int) requires m >= 1 ensures m >= 2 ==> !coprime(m, 0)
{ if m >= 2 && coprime(m, 0) { lemma_bz(m, 0); let (x, y) = choose|x: int, y: int| 1 == #[trigger] (x * m + y * 0); assert(x * m != 1) by(nonlinear_arith) requires m >= 2; assert(y * 0 == 0); } }
pub proof fn lemma_cop_one(m: int) ensures coprime(m, 1)
{ lemma_bz(m, 1); assert(1 == 0 * m + 1 * 1); }
pub proof fn lemma_totient2() ensures totient(2) == 1
{ lemma_cop_one(2); assert(cop_count(2, 1) == 0); assert(cop_count(2, 2) == cop_count(2, 1) + (if coprime(2, 1) { 1int } else { 0 })); }
pub proof fn lemma_totient_pos(m: int) requires m >= 2 ensures totient(m) >= 1, m >= 3 ==> totient(m) >= 2
{
    lemma_cop_one(m); lemma_euler(1, m);
    if m >= 3 {
        lemma_bz(m, m - 1); assert(1 == 1 * m + (-1) * (m - 1));
        lemma_cop_one_le(m, m - 1);
        assert(cop_count(m, m) == cop_count(m, m - 1) + 1);
    }
}
pub proof fn lemma_cop_one_le(m: int, k: int) requires k >= 2 ensures cop_count(m, k) >= 1 decreases k
{ lemma_cop_one(m); if k > 2 { lemma_cop_one_le(m, k - 1); } else { assert(cop_count(m, 1) == 0); assert(cop_count(m, 2) == cop_count(m, 1) + (if coprime(m, 1) { 1int } else { 0 })); } }
pub proof fn lemma_mexp_start(a: int, e0: int, xp: int, e: nat, m: int)
    requires m >= 2
    ensures (e0 >= 0 && xp == a && e == e0) ==> mexp_inv(a, e0, 1, xp, e, m),
        (e0 < 0 && mquot(xp, 1, a, m) && e == -e0) ==> mexp_inv(a, e0, 1, xp, e, m),
{
    let p = pw(xp, e);
    assert(1 * p == p); lemma_cong_mod(p, 1, m);
    if e0 < 0 && mquot(xp, 1, a, m) { assert(xp * a == a * xp) by(nonlinear_arith); assert(is_inv(a, xp, m)); }
}
pub proof fn lemma_recip_two(r: int) ensures (r == 0 || r == 1) ==> (coprime(2, r) <==> r == 1), is_inv(1, 1, 2)
{ lemma_cop_zero(2); lemma_cop_one(2); }
