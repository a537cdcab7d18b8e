// ---- bit_matrix_t: num_rows rows in live storage, each num_cols bits wide
pub open spec fn bm(x: bit_matrix_t, i: int, j: int) -> bool { bv(x.rows.v@[i], j) }
pub open spec fn bmrow(x: bit_matrix_t, i: int) -> bool { bvok(x.rows.v@[i]) && x.rows.v@[i].num_bits == x.num_cols }
pub open spec fn bmst(x: bit_matrix_t) -> bool {
    &&& !(x.rows.st is Dead) && 0 <= x.num_rows <= x.rows.v@.len() && 0 <= x.num_cols <= bvmax()
    &&& (x.rows.st is Null ==> x.num_rows == 0 && x.rows.v@.len() == 0) && (x.rows.st is Live ==> x.num_rows >= 1 && x.num_cols >= 1)
}
pub open spec fn bmok(x: bit_matrix_t) -> bool { bmst(x) && (forall|i: int| 0 <= i < x.num_rows ==> bvok(#[trigger] x.rows.v@[i]) && x.rows.v@[i].num_bits == x.num_cols) }
pub open spec fn bmmax() -> int { 0x7fff_ffc0 }
pub open spec fn bmdim(x: bit_matrix_t, y: bit_matrix_t) -> bool { x.num_rows == y.num_rows && x.num_cols == y.num_cols }
pub open spec fn rowis(a: bit_vector_t, b: bit_vector_t) -> bool { a.num_bits == b.num_bits && forall|j: int| #![trigger bv(a, j)] #![trigger bv(b, j)] 0 <= j < a.num_bits ==> bv(a, j) == bv(b, j) }
pub open spec fn rowxor(r: bit_vector_t, a: bit_vector_t, b: bit_vector_t) -> bool { r.num_bits == a.num_bits && forall|j: int| 0 <= j < r.num_bits ==> #[trigger] bv(r, j) == (bv(a, j) != bv(b, j)) }
pub open spec fn rowall(a: bit_vector_t, v: bool) -> bool { forall|j: int| 0 <= j < a.num_bits ==> #[trigger] bv(a, j) == v }
pub open spec fn bmsameto(a: bit_matrix_t, b: bit_matrix_t, n: int) -> bool { forall|i: int| #![trigger a.rows.v@[i]] #![trigger b.rows.v@[i]] 0 <= i < n ==> rowis(a.rows.v@[i], b.rows.v@[i]) }
pub open spec fn bmsame(a: bit_matrix_t, b: bit_matrix_t) -> bool { bmdim(a, b) && bmsameto(a, b, b.num_rows as int) }
pub open spec fn bmall(a: bit_matrix_t, v: bool, n: int) -> bool { forall|i: int| 0 <= i < n ==> rowall(#[trigger] a.rows.v@[i], v) }
pub open spec fn bmxor(r: bit_matrix_t, a: bit_matrix_t, b: bit_matrix_t, n: int) -> bool { forall|i: int| 0 <= i < n ==> rowxor(#[trigger] r.rows.v@[i], a.rows.v@[i], b.rows.v@[i]) }
// a + e I
pub open spec fn rowdiag(r: bit_vector_t, a: bit_vector_t, i: int, e: bool) -> bool { r.num_bits == a.num_bits && forall|j: int| 0 <= j < r.num_bits ==> #[trigger] bv(r, j) == (bv(a, j) != (e && j == i)) }
pub open spec fn bmdiag(r: bit_matrix_t, a: bit_matrix_t, e: bool, n: int) -> bool { forall|i: int| 0 <= i < n ==> rowdiag(#[trigger] r.rows.v@[i], a.rows.v@[i], i, e) }
pub open spec fn rowunit(r: bit_vector_t, i: int) -> bool { forall|j: int| 0 <= j < r.num_bits ==> #[trigger] bv(r, j) == (j == i) }
pub open spec fn bmI(r: bit_matrix_t) -> bool { forall|i: int| 0 <= i < r.num_rows ==> rowunit(#[trigger] r.rows.v@[i], i) }
// the transpose, the product
pub open spec fn bmtr(r: bit_matrix_t, a: bit_matrix_t) -> bool { r.num_rows == a.num_cols && r.num_cols == a.num_rows && forall|i: int, j: int| 0 <= i < a.num_rows && 0 <= j < a.num_cols ==> #[trigger] bm(r, j, i) == bm(a, i, j) }
pub open spec fn mdot(x: bit_matrix_t, y: bit_matrix_t, i: int, j: int, n: int) -> bool decreases n { if n <= 0 { false } else { mdot(x, y, i, j, n - 1) != (bm(x, i, n - 1) && bm(y, n - 1, j)) } }
pub open spec fn bmprod(r: bit_matrix_t, x: bit_matrix_t, y: bit_matrix_t) -> bool { r.num_rows == x.num_rows && r.num_cols == y.num_cols && forall|i: int, j: int| 0 <= i < r.num_rows && 0 <= j < r.num_cols ==> #[trigger] bm(r, i, j) == mdot(x, y, i, j, x.num_cols as int) }
pub proof fn lemma_mdot(x: bit_matrix_t, y: bit_matrix_t, t: bit_matrix_t, i: int, j: int, n: int)
    requires bmtr(t, y), 0 <= i < x.num_rows, 0 <= j < y.num_cols, n <= y.num_rows,
    ensures dotp(x.rows.v@[i], t.rows.v@[j], n) == mdot(x, y, i, j, n),
    decreases n
{
    if n > 0 { lemma_mdot(x, y, t, i, j, n - 1); assert(bm(t, j, n - 1) == bm(y, n - 1, j)); assert(bv(x.rows.v@[i], n - 1) == bm(x, i, n - 1)); }
}
// a partial dot product depends on the rows only
pub proof fn lemma_dotp_same(a: bit_vector_t, a2: bit_vector_t, b: bit_vector_t, n: int)
    requires rowis(a, a2), n <= a.num_bits,
    ensures dotp(a, b, n) == dotp(a2, b, n),
    decreases n
{ if n > 0 { lemma_dotp_same(a, a2, b, n - 1); assert(bv(a, n - 1) == bv(a2, n - 1)); } }
pub proof fn lemma_prodI(r: bit_matrix_t, x: bit_matrix_t, y: bit_matrix_t, n: int)
    requires bmok(r), bmprod(r, x, y), bmI(r), r.num_rows == r.num_cols, n == x.num_cols,
    ensures forall|i: int, j: int| 0 <= i < r.num_rows && 0 <= j < r.num_cols ==> #[trigger] mdot(x, y, i, j, n) == (i == j),
{
    assert forall|i: int, j: int| 0 <= i < r.num_rows && 0 <= j < r.num_cols implies #[trigger] mdot(x, y, i, j, n) == (i == j) by { assert(bm(r, i, j) == bv(r.rows.v@[i], j)); assert(rowunit(r.rows.v@[i], i)); }
}
pub proof fn lemma_bmsame(a: bit_matrix_t, b: bit_matrix_t)
    requires bmok(a), bmok(b), bmsame(a, b),
    ensures forall|i: int, j: int| 0 <= i < a.num_rows && 0 <= j < a.num_cols ==> #[trigger] bm(a, i, j) == bm(b, i, j),
{
    assert forall|i: int, j: int| 0 <= i < a.num_rows && 0 <= j < a.num_cols implies #[trigger] bm(a, i, j) == bm(b, i, j) by { assert(rowis(a.rows.v@[i], b.rows.v@[i])); assert(bv(a.rows.v@[i], j) == bv(b.rows.v@[i], j)); }
}
pub proof fn lemma_bitops(a: u8, b: u8)
    requires a <= 1, b <= 1,
    ensures a ^ b <= 1, (a ^ b == 1) == ((a == 1) != (b == 1)), a & b <= 1, (a & b == 1) == (a == 1 && b == 1),
{
    assert(a <= 1 && b <= 1 ==> a ^ b <= 1 && ((a ^ b == 1) == ((a == 1) != (b == 1))) && a & b <= 1 && ((a & b == 1) == (a == 1 && b == 1))) by(bit_vector);
}
