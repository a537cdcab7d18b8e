// ---- the four-round pseudo-DES of Numerical Recipes: a Feistel network over pairs of 32-bit words
pub open spec fn k1(i: int) -> u32 { if i == 0 { 0xbaa96887u32 } else if i == 1 { 0x1e17d32cu32 } else if i == 2 { 0x03bcdc3cu32 } else { 0x0f33d1b2u32 } }
pub open spec fn k2(i: int) -> u32 { if i == 0 { 0x4b0f3b58u32 } else if i == 1 { 0xe874f0c3u32 } else if i == 2 { 0x6955c5a6u32 } else { 0x55a7ca46u32 } }
pub open spec fn wr(x: int) -> u32 { (x % 0x1_0000_0000) as u32 }
pub open spec fn mulw(a: u32, b: u32) -> u32 { wr(a as int * b as int) }
pub open spec fn addw(a: u32, b: u32) -> u32 { wr(a as int + b as int) }
pub open spec fn swap16(x: u32) -> u32 { (x >> 16) | ((x & 0xffff) << 16) }
// the round function: any function of the round number and the right half would make a permutation
pub open spec fn rf(i: int, r: u32) -> u32 { let a = r ^ k1(i); let l = a & 0xffff; let h = a >> 16; addw(swap16(addw(mulw(l, l), !mulw(h, h))) ^ k2(i), mulw(l, h)) }
pub open spec fn feist(n: nat, w0: u32, w1: u32) -> (u32, u32) decreases n { if n == 0 { (w0, w1) } else { let p = feist((n - 1) as nat, w0, w1); (p.1, p.0 ^ rf(n - 1, p.1)) } }
pub open spec fn unfeist(n: nat, w0: u32, w1: u32) -> (u32, u32) decreases n { if n == 0 { (w0, w1) } else { unfeist((n - 1) as nat, w1 ^ rf(n - 1, w0), w0) } }
pub open spec fn ctr(s0: u32, s1: u32) -> (u32, u32) { (if s1 == 0xffff_ffff { addw(s0, 1) } else { s0 }, addw(s1, 1)) }
pub proof fn lemma_unfeist(n: nat, w0: u32, w1: u32)
    ensures ({ let p = feist(n, w0, w1); unfeist(n, p.0, p.1) == (w0, w1) }),
    decreases n,
{
    if n > 0 {
        let q = feist((n - 1) as nat, w0, w1); let f = rf(n - 1, q.1); let x = q.0;
        assert((x ^ f) ^ f == x) by(bit_vector);
        lemma_unfeist((n - 1) as nat, w0, w1);
    }
}
// C22: the mixer maps distinct pairs to distinct pairs, and every pair is reached
pub proof fn property_bijection(a0: u32, a1: u32, b0: u32, b1: u32)
    ensures feist(4, a0, a1) == feist(4, b0, b1) ==> a0 == b0 && a1 == b1,
            ({ let p = unfeist(4, a0, a1); feist(4, p.0, p.1) == (a0, a1) }),
{
    lemma_unfeist(4, a0, a1); lemma_unfeist(4, b0, b1); lemma_refeist(4, a0, a1);
}
pub proof fn lemma_refeist(n: nat, w0: u32, w1: u32)
    ensures ({ let p = unfeist(n, w0, w1); feist(n, p.0, p.1) == (w0, w1) }),
    decreases n,
{
    if n > 0 {
        let f = rf(n - 1, w0);
        assert((w1 ^ f) ^ f == w1) by(bit_vector);
        lemma_refeist((n - 1) as nat, w1 ^ f, w0);
    }
}
// the counter is a 64-bit counter, so two draws of one stream fewer than 2^64 apart hash different states
pub open spec fn cval(s0: u32, s1: u32) -> int { s0 as int * 0x1_0000_0000 + s1 as int }
pub proof fn property_counter(s0: u32, s1: u32)
    ensures ({ let p = ctr(s0, s1); cval(p.0, p.1) == (cval(s0, s1) + 1) % 0x1_0000_0000_0000_0000 }),
{
    if cval(s0, s1) + 1 < 0x1_0000_0000_0000_0000 { lemma_small_mod((cval(s0, s1) + 1) as nat, 0x1_0000_0000_0000_0000); }
    if s1 == 0xffff_ffff && s0 == 0xffff_ffff { assert(cval(s0, s1) + 1 == 0x1_0000_0000_0000_0000int); }
}
pub proof fn lemma_feist_step(n: nat, w0: u32, w1: u32)
    ensures feist(n + 1, w0, w1) == ({ let p = feist(n, w0, w1); (p.1, p.0 ^ rf(n as int, p.1)) }),
{ reveal_with_fuel(feist, 2); assert((n + 1 - 1) as nat == n); }
