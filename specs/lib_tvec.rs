// ---- tvector<intmod_t>: num_elements cells of live storage; everything below is element by element
pub open spec fn tvst(x: tvector_intmod_t) -> bool { !(x.elements.st is Dead) && 0 <= x.num_elements <= x.elements.v@.len() && (x.elements.st is Null ==> x.num_elements == 0 && x.elements.v@.len() == 0) }
pub open spec fn tvall(x: tvector_intmod_t, e: intmod_t) -> bool { forall|k: int| 0 <= k < x.num_elements ==> #[trigger] x.elements.v@[k] == e }
pub open spec fn sameto(a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> bool { forall|k: int| #![trigger a.elements.v@[k]] #![trigger b.elements.v@[k]] 0 <= k < n ==> a.elements.v@[k] == b.elements.v@[k] }
pub open spec fn tvsame(a: tvector_intmod_t, b: tvector_intmod_t) -> bool { a.num_elements == b.num_elements && sameto(a, b, b.num_elements as int) }
pub open spec fn tvok(x: tvector_intmod_t) -> bool { forall|k: int| 0 <= k < x.num_elements ==> mok(#[trigger] x.elements.v@[k]) }
pub open spec fn tvok2(x: tvector_intmod_t) -> bool { forall|k: int| 0 <= k < x.num_elements ==> mok2(#[trigger] x.elements.v@[k]) }
pub open spec fn tvset(x: tvector_intmod_t) -> bool { forall|k: int| 0 <= k < x.num_elements ==> mset(#[trigger] x.elements.v@[k]) }
// element operations
pub open spec fn ein(r: intmod_t, a: intmod_t, v: int) -> bool { mset(r) && r.modulus == a.modulus && r.residue as int == v % (a.modulus as int) }
pub open spec fn eadd(r: intmod_t, a: intmod_t, b: intmod_t) -> bool { ein(r, a, a.residue as int + b.residue as int) }
pub open spec fn esub(r: intmod_t, a: intmod_t, b: intmod_t) -> bool { ein(r, a, a.residue as int - b.residue as int) }
pub open spec fn emul(r: intmod_t, a: intmod_t, b: intmod_t) -> bool { ein(r, a, a.residue as int * b.residue as int) }
pub open spec fn ediv(r: intmod_t, a: intmod_t, b: intmod_t) -> bool { mset(r) && r.modulus == a.modulus && mquot(r.residue as int, a.residue as int, b.residue as int, a.modulus as int) }
pub open spec fn eexp(r: intmod_t, a: intmod_t, e: i32) -> bool { mset(r) && r.modulus == a.modulus && (e >= 0 ==> r.residue as int == pw(a.residue as int, e as nat) % (a.modulus as int)) && (e < 0 ==> is_inv(pw(a.residue as int, (-e) as nat), r.residue as int, a.modulus as int)) }
pub open spec fn eebad(a: intmod_t, e: i32) -> bool { a.modulus == 0 || (e == 0 && a.residue == 0) || (e < 0 && (e == i32::MIN || !coprime(a.modulus as int, a.residue as int))) }
pub open spec fn edbad(a: intmod_t, b: intmod_t) -> bool { mmix(a, b) || !coprime(b.modulus as int, b.residue as int) }
pub open spec fn eacc(r: intmod_t, x: intmod_t, y: intmod_t, a: intmod_t, b: intmod_t) -> bool { ein(r, x, x.residue as int * a.residue as int - y.residue as int * b.residue as int) }
pub open spec fn eaccbad(x: intmod_t, y: intmod_t, a: intmod_t, b: intmod_t) -> bool { mmix(x, a) || mmix(y, b) || mmix(x, y) }
// element by element, the first n positions
pub open spec fn tvadd(r: tvector_intmod_t, a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> eadd(#[trigger] r.elements.v@[k], a.elements.v@[k], b.elements.v@[k]) }
pub open spec fn tvsub(r: tvector_intmod_t, a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> esub(#[trigger] r.elements.v@[k], a.elements.v@[k], b.elements.v@[k]) }
pub open spec fn tvmul(r: tvector_intmod_t, a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> emul(#[trigger] r.elements.v@[k], a.elements.v@[k], b.elements.v@[k]) }
pub open spec fn tvdiv(r: tvector_intmod_t, a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> ediv(#[trigger] r.elements.v@[k], a.elements.v@[k], b.elements.v@[k]) }
pub open spec fn tvneg(r: tvector_intmod_t, a: tvector_intmod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> ein(#[trigger] r.elements.v@[k], a.elements.v@[k], -(a.elements.v@[k].residue as int)) }
pub open spec fn tvmuls(r: tvector_intmod_t, a: tvector_intmod_t, s: intmod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> emul(#[trigger] r.elements.v@[k], a.elements.v@[k], s) }
pub open spec fn tvdivs(r: tvector_intmod_t, a: tvector_intmod_t, s: intmod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> ediv(#[trigger] r.elements.v@[k], a.elements.v@[k], s) }
pub open spec fn tvexp(r: tvector_intmod_t, a: tvector_intmod_t, e: i32, n: int) -> bool { forall|k: int| 0 <= k < n ==> eexp(#[trigger] r.elements.v@[k], a.elements.v@[k], e) }
pub open spec fn tvacc(r: tvector_intmod_t, x: tvector_intmod_t, y: tvector_intmod_t, a: intmod_t, b: intmod_t, n: int) -> bool { forall|k: int| 0 <= k < n ==> eacc(#[trigger] r.elements.v@[k], x.elements.v@[k], y.elements.v@[k], a, b) }
// some position among the first n is rejected by the element operation
pub open spec fn tvmix(a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> bool { exists|k: int| 0 <= k < n && mmix(#[trigger] a.elements.v@[k], b.elements.v@[k]) }
pub open spec fn tvdbad(a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> bool { exists|k: int| 0 <= k < n && edbad(#[trigger] a.elements.v@[k], b.elements.v@[k]) }
pub open spec fn tvmixs(a: tvector_intmod_t, s: intmod_t, n: int) -> bool { exists|k: int| 0 <= k < n && mmix(#[trigger] a.elements.v@[k], s) }
pub open spec fn tvdbads(a: tvector_intmod_t, s: intmod_t, n: int) -> bool { exists|k: int| 0 <= k < n && edbad(#[trigger] a.elements.v@[k], s) }
pub open spec fn tvuns(a: tvector_intmod_t, n: int) -> bool { exists|k: int| 0 <= k < n && (#[trigger] a.elements.v@[k]).modulus == 0 }
pub open spec fn tvebad(a: tvector_intmod_t, e: i32, n: int) -> bool { exists|k: int| 0 <= k < n && eebad(#[trigger] a.elements.v@[k], e) }
pub open spec fn tvdotbad(a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> bool { exists|k: int| 0 <= k < n && (mmix(#[trigger] a.elements.v@[k], b.elements.v@[k]) || a.elements.v@[k].modulus != a.elements.v@[0].modulus) }
pub open spec fn tvaccbad(x: tvector_intmod_t, y: tvector_intmod_t, a: intmod_t, b: intmod_t, n: int) -> bool { exists|k: int| 0 <= k < n && eaccbad(#[trigger] x.elements.v@[k], y.elements.v@[k], a, b) }
pub open spec fn dots(a: tvector_intmod_t, b: tvector_intmod_t, n: int) -> int decreases n { if n <= 0 { 0 } else { dots(a, b, n - 1) + a.elements.v@[n - 1].residue as int * b.elements.v@[n - 1].residue as int } }
pub proof fn lemma_dots(a: tvector_intmod_t, b: tvector_intmod_t, i: int, rv: intmod_t)
    requires i >= 0, mset(rv), rv.residue as int == dots(a, b, i) % rv.modulus as int,
    ensures (rv.residue as int + (a.elements.v@[i].residue as int * b.elements.v@[i].residue as int) % rv.modulus as int) % rv.modulus as int == dots(a, b, i + 1) % rv.modulus as int,
{
    let m = rv.modulus as int; let p = a.elements.v@[i].residue as int * b.elements.v@[i].residue as int; let d = dots(a, b, i);
    lemma_add_mod_noop(d, p, m);
    assert(dots(a, b, i + 1) == d + p) by { reveal_with_fuel(dots, 2); }
}
pub proof fn lemma_accstep(x: intmod_t, y: intmod_t, a: intmod_t, b: intmod_t)
    ensures !eaccbad(x, y, a, b) && mset(x) ==> ((x.residue as int * a.residue as int) % (x.modulus as int) - (y.residue as int * b.residue as int) % (x.modulus as int)) % (x.modulus as int) == (x.residue as int * a.residue as int - y.residue as int * b.residue as int) % (x.modulus as int),
{
    if mset(x) { lemma_sub_mod_noop(x.residue as int * a.residue as int, y.residue as int * b.residue as int, x.modulus as int); }
}
