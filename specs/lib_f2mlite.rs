pub proof fn lemma_nozd2() ensures nozd(2) { assert forall|x: int, y: int| 0 < x < 2 && 0 < y < 2 implies #[trigger] mul(x, y) % 2 != 0 by { assert(x == 1 && y == 1); assert(mul(1int, 1int) == 1int); } }
pub proof fn lemma_pc01(v: int) ensures v % 2 == 0 || v % 2 == 1, pc(0) == pz(), pc(1) != pz(), pol(pc(1), 2), pol(pz(), 2), can(pc(1), 2), can(pz(), 2), pol(pc(v % 2), 2) { lemma_pconst(0); lemma_pol_const(1, 2); lemma_pol_const(v % 2, 2); }
pub proof fn lemma_f2neg_same(a: P) requires can(a, 2) ensures pneg(a, 2) == a { assert forall|k: int| #[trigger] pneg(a, 2)(k) == a(k) by { assert(0 <= a(k) < 2); } lemma_peq(pneg(a, 2), a); }
pub proof fn lemma_mulsz(s: Seq<u64>, a: Seq<u64>, b: Seq<u64>) requires f2ok(s), f2ok(a), f2ok(b), f2p(s) == pmul(f2p(a), f2p(b), 2) ensures s.len() <= a.len() + b.len()
{ lemma_f2can(a); lemma_f2can(b); lemma_pmul_dle(f2p(a), f2p(b), 64 * a.len() - 1, 64 * b.len() - 1, 2); lemma_f2len(s, 64 * (a.len() + b.len()) - 2); assert((64 * (a.len() + b.len()) - 2) / 64 == a.len() + b.len() - 1); }
pub proof fn lemma_shr1u(e: i32) ensures e >= 0 ==> ((e as u32) >> 1u32) as i32 as int == e as int / 2, e >= 0 ==> ((e as u32) >> 1u32) as int == e as int / 2 { if e >= 0 { let x = e as u32; assert(x >> 1u32 == x / 2) by(bit_vector); } }
