// ---- enumerations: the residues x in [0, m) selected by f, each exactly once and in increasing order
pub open spec fn selcnt(f: spec_fn(int) -> bool, k: int) -> int decreases k { if k <= 0 { 0 } else { selcnt(f, k - 1) + (if f(k - 1) { 1int } else { 0 }) } }
pub open spec fn fall() -> spec_fn(int) -> bool { |x: int| true }
pub open spec fn fcop(p: int) -> spec_fn(int) -> bool { |x: int| coprime(p, x) }
pub open spec fn fncop(p: int) -> spec_fn(int) -> bool { |x: int| !coprime(p, x) }
pub open spec fn fmult(g: int) -> spec_fn(int) -> bool { |x: int| x % g == 0 }
pub open spec fn listto(x: tvector_intmod_t, f: spec_fn(int) -> bool, m: int, n: int, i: int) -> bool {
    &&& (forall|k: int| #![trigger x.elements.v@[k]] 0 <= k < n ==> 0 <= x.elements.v@[k].residue < i && x.elements.v@[k].modulus == m && f(x.elements.v@[k].residue as int) && selcnt(f, x.elements.v@[k].residue as int) == k)
    &&& (forall|y: int| 0 <= y < i && f(y) ==> x.elements.v@[#[trigger] selcnt(f, y)].residue == y)
}
pub open spec fn listis(x: tvector_intmod_t, f: spec_fn(int) -> bool, m: int) -> bool { x.num_elements == selcnt(f, m) && listto(x, f, m, x.num_elements as int, m) }
pub proof fn lemma_selcnt(f: spec_fn(int) -> bool, a: int, b: int) requires a <= b ensures 0 <= selcnt(f, a) <= selcnt(f, b), selcnt(f, b) <= (if b > 0 { b } else { 0 }), a < b && 0 <= a && f(a) ==> selcnt(f, a) < selcnt(f, b) decreases b
{ if b > 0 { if a == b { lemma_selcnt(f, a - 1, b - 1); } else { lemma_selcnt(f, a, b - 1); } } }
pub proof fn lemma_selall(k: int) requires k >= 0 ensures selcnt(fall(), k) == k decreases k { if k > 0 { lemma_selall(k - 1); } }
pub proof fn lemma_gsym(g: int, a: int, b: int) requires is_gcd(g, a, b) ensures is_gcd(g, b, a)
{ assert(cdiv(g, b, a)); assert forall|d: int| #[trigger] cdiv(d, b, a) implies divides(d, g) by { assert(cdiv(d, a, b)); } }
pub proof fn lemma_cop_test(g: int, i: int, p: int) requires is_gcd(g, i, p), p >= 1, g >= 0 ensures g >= 1, (g == 1) <==> coprime(p, i)
{ lemma_gsym(g, i, p); if g == 0 { let k = choose|k: int| p == #[trigger] (0 * k); assert(0 * k == 0); } if coprime(p, i) { lemma_gcd_unique(g, 1, p, i); } }
pub proof fn lemma_gdiv(g: int, a: int, m: int) requires is_gcd(g, m, a), m >= 1, g >= 0 ensures 1 <= g <= m
{ let k = choose|k: int| m == #[trigger] (g * k); assert(1 <= g <= m) by(nonlinear_arith) requires m == g * k, m >= 1, g >= 0; }
pub proof fn lemma_selcop(p: int, k: int) requires p >= 2, k >= 0 ensures selcnt(fcop(p), k) == cop_count(p, k), selcnt(fncop(p), k) == k - cop_count(p, k) decreases k
{ if k > 0 { lemma_selcop(p, k - 1); lemma_cop_zero(p); } }
pub proof fn lemma_selstep(f: spec_fn(int) -> bool, i: int) requires i >= 0 ensures selcnt(f, i + 1) == selcnt(f, i) + (if f(i) { 1int } else { 0 }), 0 <= selcnt(f, i) <= i
{ lemma_selcnt(f, 0, i); }
pub proof fn lemma_listpush(x: tvector_intmod_t, y: tvector_intmod_t, f: spec_fn(int) -> bool, m: int, i: int)
    requires i >= 0, listto(x, f, m, selcnt(f, i), i), f(i) ==> (y.elements.v@ =~= x.elements.v@.update(selcnt(f, i), y.elements.v@[selcnt(f, i)]) && selcnt(f, i) < x.elements.v@.len() && y.elements.v@[selcnt(f, i)].residue == i && y.elements.v@[selcnt(f, i)].modulus == m), !f(i) ==> y.elements.v@ == x.elements.v@
    ensures listto(y, f, m, selcnt(f, i + 1), i + 1)
{
    lemma_selstep(f, i); let n = selcnt(f, i);
    assert forall|k: int| #![trigger y.elements.v@[k]] 0 <= k < selcnt(f, i + 1) implies 0 <= y.elements.v@[k].residue < i + 1 && y.elements.v@[k].modulus == m && f(y.elements.v@[k].residue as int) && selcnt(f, y.elements.v@[k].residue as int) == k by { if k < n { assert(y.elements.v@[k] == x.elements.v@[k]); } }
    assert forall|z: int| 0 <= z < i + 1 && f(z) implies y.elements.v@[#[trigger] selcnt(f, z)].residue == z by { if z < i { lemma_selcnt(f, z, i); assert(y.elements.v@[selcnt(f, z)] == x.elements.v@[selcnt(f, z)]); } }
}
pub proof fn lemma_smod(i: int, p: int) requires 0 <= i < p ensures i % p == i { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, p as nat); }
