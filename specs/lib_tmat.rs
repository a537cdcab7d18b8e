// ---- tmatrix<intmod_t>: num_rows rows in live storage, num_cols elements each
pub open spec fn te(x: tmatrix_intmod_t, i: int, j: int) -> intmod_t { x.rows.v@[i].elements.v@[j] }
pub open spec fn tmrow(v: tvector_intmod_t, n: int) -> bool { tvst(v) && v.num_elements == n && v.elements.st is Live }
pub open spec fn tmok(x: tmatrix_intmod_t) -> bool {
    &&& !(x.rows.st is Dead) && 0 <= x.num_rows <= x.rows.v@.len() && 0 <= x.num_cols
    &&& (x.rows.st is Null ==> x.num_rows == 0 && x.rows.v@.len() == 0) && (x.rows.st is Live ==> x.num_rows >= 1 && x.num_cols >= 1)
    &&& (forall|i: int| 0 <= i < x.num_rows ==> tmrow(#[trigger] x.rows.v@[i], x.num_cols as int))
}
pub open spec fn tmlive(x: tmatrix_intmod_t) -> bool { tmok(x) && x.rows.st is Live }
pub open spec fn tmdim(x: tmatrix_intmod_t, y: tmatrix_intmod_t) -> bool { x.num_rows == y.num_rows && x.num_cols == y.num_cols }
pub open spec fn rset(v: tvector_intmod_t, m: int) -> bool { forall|k: int| 0 <= k < v.num_elements ==> mset(#[trigger] v.elements.v@[k]) && v.elements.v@[k].modulus == m }
// every element is set, with one modulus
pub open spec fn tmset(x: tmatrix_intmod_t, m: int) -> bool { forall|i: int| 0 <= i < x.num_rows ==> rset(#[trigger] x.rows.v@[i], m) }
pub open spec fn tmm(x: tmatrix_intmod_t) -> int { te(x, 0, 0).modulus as int }
pub open spec fn tmf(x: tmatrix_intmod_t) -> bool { tmset(x, tmm(x)) }
pub open spec fn tmsameto(a: tmatrix_intmod_t, b: tmatrix_intmod_t, n: int) -> bool { forall|i: int| #![trigger a.rows.v@[i]] #![trigger b.rows.v@[i]] 0 <= i < n ==> tvsame(a.rows.v@[i], b.rows.v@[i]) }
pub open spec fn tmsame(a: tmatrix_intmod_t, b: tmatrix_intmod_t) -> bool { tmdim(a, b) && tmsameto(a, b, b.num_rows as int) }
pub open spec fn tmall(a: tmatrix_intmod_t, e: intmod_t, n: int) -> bool { forall|i: int| 0 <= i < n ==> tvall(#[trigger] a.rows.v@[i], e) }
pub open spec fn tmadd(r: tmatrix_intmod_t, a: tmatrix_intmod_t, b: tmatrix_intmod_t, n: int) -> bool { forall|i: int| 0 <= i < n ==> tvadd(#[trigger] r.rows.v@[i], a.rows.v@[i], b.rows.v@[i], a.num_cols as int) }
pub open spec fn tmsub(r: tmatrix_intmod_t, a: tmatrix_intmod_t, b: tmatrix_intmod_t, n: int) -> bool { forall|i: int| 0 <= i < n ==> tvsub(#[trigger] r.rows.v@[i], a.rows.v@[i], b.rows.v@[i], a.num_cols as int) }
pub open spec fn tmneg(r: tmatrix_intmod_t, a: tmatrix_intmod_t, n: int) -> bool { forall|i: int| 0 <= i < n ==> tvneg(#[trigger] r.rows.v@[i], a.rows.v@[i], a.num_cols as int) }
pub open spec fn tmmuls(r: tmatrix_intmod_t, a: tmatrix_intmod_t, s: intmod_t, n: int) -> bool { forall|i: int| 0 <= i < n ==> tvmuls(#[trigger] r.rows.v@[i], a.rows.v@[i], s, a.num_cols as int) }
// a + e I, a - e I: the diagonal entry changes
pub open spec fn rdiag(r: tvector_intmod_t, a: tvector_intmod_t, i: int, e: int, n: int) -> bool { forall|k: int| 0 <= k < n ==> (if k == i { ein(#[trigger] r.elements.v@[k], a.elements.v@[k], a.elements.v@[k].residue as int + e) } else { r.elements.v@[k] == a.elements.v@[k] }) }
pub open spec fn tmdiag(r: tmatrix_intmod_t, a: tmatrix_intmod_t, e: int, n: int) -> bool { forall|i: int| 0 <= i < n ==> rdiag(#[trigger] r.rows.v@[i], a.rows.v@[i], i, e, a.num_cols as int) }
pub open spec fn mdots(x: tmatrix_intmod_t, y: tmatrix_intmod_t, i: int, j: int, n: int) -> int decreases n { if n <= 0 { 0 } else { mdots(x, y, i, j, n - 1) + te(x, i, n - 1).residue as int * te(y, n - 1, j).residue as int } }
pub open spec fn mvdots(x: tmatrix_intmod_t, y: tvector_intmod_t, i: int, n: int) -> int decreases n { if n <= 0 { 0 } else { mvdots(x, y, i, n - 1) + te(x, i, n - 1).residue as int * y.elements.v@[n - 1].residue as int } }
pub open spec fn eis(r: intmod_t, v: int, m: int) -> bool { mset(r) && r.modulus == m && r.residue as int == v % m }
pub proof fn lemma_dotstep(r: intmod_t, v: int, a: int, b: int, m: int)
    requires eis(r, v, m),
    ensures (r.residue as int + (a * b) % m) % m == (v + a * b) % m,
{ lemma_add_mod_noop(v, a * b, m); }
pub proof fn lemma_zero_mod(m: int) requires m >= 1 ensures 0int % m == 0, forall|x: int| #[trigger] (x - x) % m == 0 { lemma_small_mod(0, m as nat); }
pub proof fn lemma_tmsame(a: tmatrix_intmod_t, b: tmatrix_intmod_t)
    requires tmok(a), tmok(b), tmsame(a, b),
    ensures forall|i: int, j: int| 0 <= i < a.num_rows && 0 <= j < a.num_cols ==> #[trigger] te(a, i, j) == te(b, i, j),
{
    assert forall|i: int, j: int| 0 <= i < a.num_rows && 0 <= j < a.num_cols implies #[trigger] te(a, i, j) == te(b, i, j) by { assert(tvsame(a.rows.v@[i], b.rows.v@[i])); assert(a.rows.v@[i].elements.v@[j] == b.rows.v@[i].elements.v@[j]); }
}
