# ---- C17: bit matrices
@fn bits::bit_t::operator+(bit_t)
@requires old(this).residue <= 1, that.residue <= 1
@ensures *final(this) == *old(this), ret.residue <= 1, (ret.residue == 1) == ((old(this).residue == 1) != (that.residue == 1))
@exit lemma_bitops(this.residue as u8, that.residue as u8);
@fn bits::bit_t::operator*(bit_t)
@requires old(this).residue <= 1, that.residue <= 1
@ensures *final(this) == *old(this), ret.residue <= 1, (ret.residue == 1) == (old(this).residue == 1 && that.residue == 1)
@exit lemma_bitops(this.residue as u8, that.residue as u8);
@fn bits::bit_matrix_t::bit_matrix_t()
@ensures bmok(ret), ret.num_rows == 0, ret.num_cols == 0, ret.rows.st is Null
@fn bits::bit_matrix_t::bit_matrix_t(int, int)
@requires init_num_cols <= bvmax()
@throws init_num_rows <= 0 || init_num_cols <= 0
@ensures bmok(ret), ret.num_rows == init_num_rows, ret.num_cols == init_num_cols, ret.rows.st is Live, bmall(ret, false, ret.num_rows as int)
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies bvok(#[trigger] this.rows.v@[k]) by { assert(dflt_bit_vector_t(this.rows.v@[k])); }
@inv 0 <= i <= init_num_rows, this.rows.st is Live, this.rows.v@.len() == init_num_rows, this.num_rows == init_num_rows, this.num_cols == init_num_cols, 1 <= init_num_cols <= bvmax(), forall|k: int| 0 <= k < this.rows.v@.len() ==> bvok(#[trigger] this.rows.v@[k]), forall|k: int| 0 <= k < i ==> (#[trigger] this.rows.v@[k]).num_bits == init_num_cols, bmall(this, false, i as int)
@dec init_num_rows - i
@fn bits::bit_matrix_t::bit_matrix_t(bit_t, int, int)
@requires init_num_cols <= bvmax(), e.residue <= 1
@throws init_num_rows <= 0 || init_num_cols <= 0
@ensures bmok(ret), ret.num_rows == init_num_rows, ret.num_cols == init_num_cols, ret.rows.st is Live, bmall(ret, e.residue == 1, ret.num_rows as int)
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies bvok(#[trigger] this.rows.v@[k]) by { assert(dflt_bit_vector_t(this.rows.v@[k])); }
@inv 0 <= i <= init_num_rows, e.residue <= 1, this.rows.st is Live, this.rows.v@.len() == init_num_rows, this.num_rows == init_num_rows, this.num_cols == init_num_cols, 1 <= init_num_cols <= bvmax(), forall|k: int| 0 <= k < this.rows.v@.len() ==> bvok(#[trigger] this.rows.v@[k]), forall|k: int| 0 <= k < i ==> (#[trigger] this.rows.v@[k]).num_bits == init_num_cols, bmall(this, e.residue == 1, i as int)
@dec init_num_rows - i
@fn bits::bit_matrix_t::bit_matrix_t(int, int, int)
@requires init_num_cols <= bvmax(), e == 0 || e == 1
@throws init_num_rows <= 0 || init_num_cols <= 0
@ensures bmok(ret), ret.num_rows == init_num_rows, ret.num_cols == init_num_cols, ret.rows.st is Live, bmall(ret, e == 1, ret.num_rows as int)
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies bvok(#[trigger] this.rows.v@[k]) by { assert(dflt_bit_vector_t(this.rows.v@[k])); }
@inv 0 <= i <= init_num_rows, e == 0 || e == 1, this.rows.st is Live, this.rows.v@.len() == init_num_rows, this.num_rows == init_num_rows, this.num_cols == init_num_cols, 1 <= init_num_cols <= bvmax(), forall|k: int| 0 <= k < this.rows.v@.len() ==> bvok(#[trigger] this.rows.v@[k]), forall|k: int| 0 <= k < i ==> (#[trigger] this.rows.v@[k]).num_bits == init_num_cols, bmall(this, e == 1, i as int)
@dec init_num_rows - i
@fn bits::bit_matrix_t::bit_matrix_t(const bit_matrix_t &)
@requires bmok(*that), that.num_rows >= 1
@ensures bmok(ret), bmsame(ret, *that), ret.rows.st is Live
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies bvok(#[trigger] this.rows.v@[k]) by { assert(dflt_bit_vector_t(this.rows.v@[k])); }
@inv 0 <= i <= that.num_rows, bmok(*that), that.num_rows >= 1, this.rows.st is Live, this.rows.v@.len() == that.num_rows, this.num_rows == that.num_rows, this.num_cols == that.num_cols, forall|k: int| 0 <= k < this.rows.v@.len() ==> bvok(#[trigger] this.rows.v@[k]), bmsameto(this, *that, i as int)
@dec that.num_rows - i
@fn bits::bit_matrix_t::nullify()
@ensures final(this).rows.st is Null, final(this).rows.v@.len() == 0, final(this).num_rows == 0, final(this).num_cols == 0
@fn bits::bit_matrix_t::mfree()
@requires !(old(this).rows.st is Dead)
@ensures final(this).rows.st is Null, final(this).rows.v@.len() == 0, final(this).num_rows == 0, final(this).num_cols == 0
@fn bits::bit_matrix_t::get_num_rows() const
@ensures ret == this.num_rows
@fn bits::bit_matrix_t::get_num_cols() const
@ensures ret == this.num_cols
@fn bits::bit_matrix_t::is_square() const
@ensures ret == (this.num_rows == this.num_cols)
@fn bits::bit_matrix_t::operator=(const bit_matrix_t &)
@requires bmok(*old(this)), bmok(*that), that.num_rows >= 1
@ensures bmok(*final(this)), bmsame(*final(this), *that), final(this).rows.st is Live
@entry
let ghost b = *that;
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies bvok(#[trigger] this.rows.v@[k]) by { assert(dflt_bit_vector_t(this.rows.v@[k])); }
@inv 0 <= i <= that.num_rows, *that == b, bmok(*that), that.num_rows >= 1, this.rows.st is Live, this.rows.v@.len() == that.num_rows, this.num_rows == that.num_rows, this.num_cols == that.num_cols, forall|k: int| 0 <= k < this.rows.v@.len() ==> bvok(#[trigger] this.rows.v@[k]), forall|k: int| 0 <= k < i ==> (#[trigger] this.rows.v@[k]).num_bits == that.num_cols
@dec that.num_rows - i
@loop 1
@inv 0 <= i <= that.num_rows, bmok(b), bmok(*that), bmsame(*that, b), that.num_rows >= 1, bmok(*this), this.rows.st is Live, this.num_rows == that.num_rows, this.num_cols == that.num_cols, bmsameto(*this, b, i as int)
@dec that.num_rows - i
@fn bits::bit_matrix_t::operator=(const bit_t &)
@requires bmok(*old(this)), scalar.residue <= 1
@ensures bmok(*final(this)), final(this).rows.st is Live, old(this).rows.st is Live ==> bmdim(*final(this), *old(this)), old(this).rows.st is Null ==> final(this).num_rows == 1 && final(this).num_cols == 1, bmall(*final(this), scalar.residue == 1, final(this).num_rows as int)
@beforecall operator= 0 assert(dflt_bit_vector_t(this.rows.v@[0]));
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.rows.st is Live, bmdim(*this, *old(this)), old(this).rows.st is Live, scalar.residue <= 1, bmall(*this, scalar.residue == 1, i as int)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, bmok(*this), this.rows.st is Live, bmdim(*this, *old(this)), old(this).rows.st is Live, scalar.residue <= 1, bmall(*this, scalar.residue == 1, i as int), forall|k: int| 0 <= k < j ==> #[trigger] bv(this.rows.v@[i as int], k) == (scalar.residue == 1)
@dec this.num_cols - j
@fn bits::bit_matrix_t::operator==(const bit_matrix_t &) const
@requires bmok(*this), bmok(*that), that.num_rows >= 1
@throws !bmdim(*this, *that)
@ensures ret == bmsame(*this, *that)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), bmok(*that), bmdim(*this, *that), bmsameto(*this, *that, i as int)
@dec this.num_rows - i
@fn bits::bit_matrix_t::operator!=(const bit_matrix_t &) const
@requires bmok(*this), bmok(*that), that.num_rows >= 1
@throws !bmdim(*this, *that)
@ensures ret == !bmsame(*this, *that)
@fn bits::bit_matrix_t::operator==(const bit_t &) const
@requires bmok(*this), e.residue <= 1
@ensures ret == bmall(*this, e.residue == 1, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), e.residue <= 1, bmall(*this, e.residue == 1, i as int)
@dec this.num_rows - i
@fn bits::bit_matrix_t::operator!=(const bit_t &) const
@requires bmok(*this), e.residue <= 1
@ensures ret == !bmall(*this, e.residue == 1, this.num_rows as int)
@fn bits::bit_matrix_t::is_zero() const
@requires bmok(*this)
@ensures ret == bmall(*this, false, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), bmall(*this, false, i as int)
@dec this.num_rows - i
@fn bits::bit_matrix_t::is_I() const
@requires bmok(*this)
@ensures ret == (this.num_rows == this.num_cols && bmI(*this))
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows == this.num_cols, forall|k: int| 0 <= k < i ==> #[trigger] bm(*this, k, k)
@dec this.num_rows - i
@top assert(bm(*this, i as int, i as int) == bv(this.rows.v@[i as int], i as int));
@loop 1
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows == this.num_cols, forall|k: int| 0 <= k < this.num_rows ==> #[trigger] bm(*this, k, k), forall|k: int| 0 <= k < i ==> rowunit(#[trigger] this.rows.v@[k], k)
@dec this.num_rows - i
@top assert(bm(*this, i as int, i as int) == bv(this.rows.v@[i as int], i as int));
@loop 2
@inv 0 <= j <= i, 0 <= i < this.num_rows, bmok(*this), this.num_rows == this.num_cols, forall|k: int| 0 <= k < j ==> !#[trigger] bv(this.rows.v@[i as int], k)
@dec i - j
@loop 3
@inv i < j <= this.num_cols, 0 <= i < this.num_rows, bmok(*this), this.num_rows == this.num_cols, forall|k: int| 0 <= k < i ==> !#[trigger] bv(this.rows.v@[i as int], k), forall|k: int| i < k < j ==> !#[trigger] bv(this.rows.v@[i as int], k)
@dec this.num_cols - j
@fn bits::bit_matrix_t::check_dims(const bit_matrix_t, const std::string &) const
@requires bmok(that)
@throws !bmdim(*this, that)
@fn bits::bit_matrix_t::operator+(const bit_matrix_t &) const
@requires bmok(*this), this.num_rows >= 1, bmok(*that), that.num_rows >= 1
@throws !bmdim(*this, *that)
@ensures bmok(ret), ret.rows.st is Live, bmdim(ret, *this), bmxor(ret, *this, *that, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows >= 1, bmok(*that), bmdim(*this, *that), bmok(rv), rv.rows.st is Live, bmdim(rv, *this), bmxor(rv, *this, *that, i as int)
@dec this.num_rows - i
@fn bits::bit_matrix_t::operator-(const bit_matrix_t &) const
@requires bmok(*this), this.num_rows >= 1, bmok(*that), that.num_rows >= 1
@throws !bmdim(*this, *that)
@ensures bmok(ret), ret.rows.st is Live, bmdim(ret, *this), bmxor(ret, *this, *that, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows >= 1, bmok(*that), bmdim(*this, *that), bmok(rv), rv.rows.st is Live, bmdim(rv, *this), bmxor(rv, *this, *that, i as int)
@dec this.num_rows - i
@fn bits::bit_matrix_t::operator-() const
@requires bmok(*this), this.num_rows >= 1
@ensures bmok(ret), ret.rows.st is Live, bmsame(ret, *this)
@fn bits::bit_matrix_t::operator+(const bit_t &) const
@requires bmok(*this), this.num_rows >= 1, e.residue <= 1
@throws this.num_rows != this.num_cols
@ensures bmok(ret), ret.rows.st is Live, bmdim(ret, *this), bmdiag(ret, *this, e.residue == 1, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows >= 1, this.num_rows == this.num_cols, e.residue == 1, bmok(rv), rv.rows.st is Live, bmdim(rv, *this), bmdiag(rv, *this, true, i as int), forall|k: int| i <= k < this.num_rows ==> rowis(#[trigger] rv.rows.v@[k], this.rows.v@[k])
@dec this.num_rows - i
@fn bits::bit_matrix_t::operator-(const bit_t &) const
@requires bmok(*this), this.num_rows >= 1, e.residue <= 1
@throws this.num_rows != this.num_cols
@ensures bmok(ret), ret.rows.st is Live, bmdim(ret, *this), bmdiag(ret, *this, e.residue == 1, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows >= 1, this.num_rows == this.num_cols, e.residue == 1, bmok(rv), rv.rows.st is Live, bmdim(rv, *this), bmdiag(rv, *this, true, i as int), forall|k: int| i <= k < this.num_rows ==> rowis(#[trigger] rv.rows.v@[k], this.rows.v@[k])
@dec this.num_rows - i
@fn bits::bit_matrix_t::operator+=(const bit_matrix_t &)
@requires bmok(*old(this)), old(this).num_rows >= 1, bmok(*that), that.num_rows >= 1
@throws !bmdim(*old(this), *that)
@onerr *final(this) == *old(this)
@ensures bmok(*final(this)), final(this).rows.st is Live, bmdim(*final(this), *old(this)), bmxor(*final(this), *old(this), *that, old(this).num_rows as int)
@fn bits::bit_matrix_t::operator+=(const bit_t &)
@requires bmok(*old(this)), old(this).num_rows >= 1, e.residue <= 1
@throws old(this).num_rows != old(this).num_cols
@onerr *final(this) == *old(this)
@ensures bmok(*final(this)), final(this).rows.st is Live, bmdim(*final(this), *old(this)), bmdiag(*final(this), *old(this), e.residue == 1, old(this).num_rows as int)
@fn bits::bit_matrix_t::operator-=(const bit_matrix_t &)
@requires bmok(*old(this)), old(this).num_rows >= 1, bmok(*that), that.num_rows >= 1
@throws !bmdim(*old(this), *that)
@onerr *final(this) == *old(this)
@ensures bmok(*final(this)), final(this).rows.st is Live, bmdim(*final(this), *old(this)), bmxor(*final(this), *old(this), *that, old(this).num_rows as int)
@fn bits::bit_matrix_t::operator-=(const bit_t &)
@requires bmok(*old(this)), old(this).num_rows >= 1, e.residue <= 1
@throws old(this).num_rows != old(this).num_cols
@onerr *final(this) == *old(this)
@ensures bmok(*final(this)), final(this).rows.st is Live, bmdim(*final(this), *old(this)), bmdiag(*final(this), *old(this), e.residue == 1, old(this).num_rows as int)
@fn bits::bit_matrix_t::transpose() const
@requires bmok(*this), this.num_rows >= 1, this.num_rows <= bvmax()
@ensures bmok(ret), ret.rows.st is Live, bmtr(ret, *this)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows >= 1, bmok(rv), rv.rows.st is Live, rv.num_rows == this.num_cols, rv.num_cols == this.num_rows, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] bm(rv, b, a) == bm(*this, a, b)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, bmok(*this), this.num_rows >= 1, bmok(rv), rv.rows.st is Live, rv.num_rows == this.num_cols, rv.num_cols == this.num_rows, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] bm(rv, b, a) == bm(*this, a, b), forall|b: int| 0 <= b < j ==> #[trigger] bm(rv, b, i as int) == bm(*this, i as int, b)
@dec this.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols implies #[trigger] bm(rv, b, a) == bm(*this, a, b) by { assert(bm(rv0, b, a) == bm(*this, a, b)); assert(bv(rv.rows.v@[b], a) == bv(rv0.rows.v@[b], a)); }
assert forall|b: int| 0 <= b < j + 1 implies #[trigger] bm(rv, b, i as int) == bm(*this, i as int, b) by { if b < j { assert(bm(rv0, b, i as int) == bm(*this, i as int, b)); } }
@fn bits::bit_matrix_t::make_I() const
@requires bmok(*this), this.num_rows >= 1
@throws this.num_rows != this.num_cols
@ensures bmok(ret), ret.rows.st is Live, bmdim(ret, *this), bmI(ret)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows >= 1, this.num_rows == this.num_cols, bmok(rv), rv.rows.st is Live, bmdim(rv, *this), forall|k: int| 0 <= k < i ==> rowunit(#[trigger] rv.rows.v@[k], k)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, bmok(*this), this.num_rows >= 1, this.num_rows == this.num_cols, bmok(rv), rv.rows.st is Live, bmdim(rv, *this), forall|k: int| 0 <= k < i ==> rowunit(#[trigger] rv.rows.v@[k], k), forall|k: int| 0 <= k < j ==> #[trigger] bv(rv.rows.v@[i as int], k) == (k == i)
@dec this.num_cols - j
@fn bits::bit_matrix_t::swap(int, int)
@requires bmok(*old(this)), 0 <= arow < old(this).num_rows, 0 <= brow < old(this).num_rows, arow != brow
@ensures bmok(*final(this)), bmdim(*final(this), *old(this)), rowis(final(this).rows.v@[arow as int], old(this).rows.v@[brow as int]), rowis(final(this).rows.v@[brow as int], old(this).rows.v@[arow as int]), forall|k: int| 0 <= k < old(this).num_rows && k != arow && k != brow ==> #[trigger] final(this).rows.v@[k] == old(this).rows.v@[k]
@fn bits::bit_matrix_t::get_rank_rr() const
@requires bmok(*this)
@ensures 0 <= ret <= this.num_rows, forall|k: int| 0 <= k < ret ==> !rowall(#[trigger] this.rows.v@[k], false), ret < this.num_rows ==> rowall(this.rows.v@[ret as int], false)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), rank == i, forall|k: int| 0 <= k < i ==> !rowall(#[trigger] this.rows.v@[k], false)
@lens i < this.num_rows ==> rowall(this.rows.v@[i as int], false)
@dec this.num_rows - i
@fn bits::bit_matrix_t::operator*(const bit_vector_t &) const
@requires bmok(*this), this.num_rows >= 1, this.num_rows <= bvmax(), bvok(*v)
@throws this.num_cols != v.num_bits
@ensures bvok(ret), ret.num_bits == this.num_rows, forall|i: int| 0 <= i < ret.num_bits ==> #[trigger] bv(ret, i) == dotp(this.rows.v@[i], *v, this.num_cols as int)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows >= 1, bvok(*v), this.num_cols == v.num_bits, bvok(rv), rv.num_bits == this.num_rows, forall|k: int| 0 <= k < i ==> #[trigger] bv(rv, k) == dotp(this.rows.v@[k], *v, this.num_cols as int), forall|k: int| i <= k < this.num_rows ==> !#[trigger] bv(rv, k)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, bmok(*this), this.num_rows >= 1, bvok(*v), this.num_cols == v.num_bits, bvok(rv), rv.num_bits == this.num_rows, forall|k: int| 0 <= k < i ==> #[trigger] bv(rv, k) == dotp(this.rows.v@[k], *v, this.num_cols as int), forall|k: int| i < k < this.num_rows ==> !#[trigger] bv(rv, k), bv(rv, i as int) == dotp(this.rows.v@[i as int], *v, j as int)
@dec this.num_cols - j
@fn bits::bit_matrix_t::operator*(const bit_matrix_t &) const
@requires bmok(*this), this.num_rows >= 1, bmok(*that), 1 <= that.num_rows <= bvmax()
@throws this.num_cols != that.num_rows
@ensures bmok(ret), ret.rows.st is Live, bmprod(ret, *this, *that)
@loop 0
@inv 0 <= i <= this.num_rows, bmok(*this), this.num_rows >= 1, bmok(*that), this.num_cols == that.num_rows, zero.residue == 0, one.residue == 1, bmok(thatt), bmtr(thatt, *that), bmok(rv), rv.rows.st is Live, rv.num_rows == this.num_rows, rv.num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < rv.num_cols ==> #[trigger] bm(rv, a, b) == mdot(*this, *that, a, b, this.num_cols as int), forall|a: int, b: int| i <= a < rv.num_rows && 0 <= b < rv.num_cols ==> !#[trigger] bm(rv, a, b)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= thatt.num_rows, 0 <= i < this.num_rows, bmok(*this), this.num_rows >= 1, bmok(*that), this.num_cols == that.num_rows, zero.residue == 0, one.residue == 1, bmok(thatt), bmtr(thatt, *that), bmok(rv), rv.rows.st is Live, rv.num_rows == this.num_rows, rv.num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < rv.num_cols ==> #[trigger] bm(rv, a, b) == mdot(*this, *that, a, b, this.num_cols as int), forall|a: int, b: int| i < a < rv.num_rows && 0 <= b < rv.num_cols ==> !#[trigger] bm(rv, a, b), forall|b: int| 0 <= b < j ==> #[trigger] bm(rv, i as int, b) == mdot(*this, *that, i as int, b, this.num_cols as int), forall|b: int| j <= b < rv.num_cols ==> !#[trigger] bm(rv, i as int, b)
@dec thatt.num_rows - j
@top
let ghost rv0 = rv;
lemma_mdot(*this, *that, thatt, i as int, j as int, this.num_cols as int); assert(!bm(rv0, i as int, j as int));
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i && b == j) implies #[trigger] bm(rv, a, b) == bm(rv0, a, b) by { if a == i { assert(bv(rv.rows.v@[a], b) == bv(rv0.rows.v@[a], b)); } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(bm(rv, i as int, j as int) == bv(rv.rows.v@[i as int], j as int));
@fn bits::bit_matrix_t::operator*=(const bit_matrix_t &)
@requires bmok(*old(this)), old(this).num_rows >= 1, bmok(*that), 1 <= that.num_rows <= bvmax()
@throws old(this).num_cols != that.num_rows
@onerr *final(this) == *old(this)
@ensures bmok(*final(this)), final(this).rows.st is Live, final(this).num_rows == old(this).num_rows, final(this).num_cols == that.num_cols, forall|i: int, j: int| 0 <= i < final(this).num_rows && 0 <= j < final(this).num_cols ==> #[trigger] bm(*final(this), i, j) == mdot(*old(this), *that, i, j, old(this).num_cols as int)
@aftercall operator* 0
let ghost pr = $ret;
@exit lemma_bmsame(*this, pr);
@fn bits::bit_matrix_t::outer(const bit_vector_t &, const bit_vector_t &)
@requires bvok(*u), bvok(*v)
@throws u.num_bits == 0 || v.num_bits == 0
@ensures bmok(ret), ret.rows.st is Live, ret.num_rows == u.num_bits, ret.num_cols == v.num_bits, forall|i: int, j: int| 0 <= i < ret.num_rows && 0 <= j < ret.num_cols ==> #[trigger] bm(ret, i, j) == (bv(*u, i) && bv(*v, j))
@loop 0
@inv 0 <= i <= m, m == u.num_bits, n == v.num_bits, bvok(*u), bvok(*v), bmok(rv), rv.rows.st is Live, rv.num_rows == m, rv.num_cols == n, forall|a: int, b: int| 0 <= a < i && 0 <= b < n ==> #[trigger] bm(rv, a, b) == (bv(*u, a) && bv(*v, b))
@dec m - i
@loop 1
@inv 0 <= j <= n, 0 <= i < m, m == u.num_bits, n == v.num_bits, bvok(*u), bvok(*v), bmok(rv), rv.rows.st is Live, rv.num_rows == m, rv.num_cols == n, forall|a: int, b: int| 0 <= a < i && 0 <= b < n ==> #[trigger] bm(rv, a, b) == (bv(*u, a) && bv(*v, b)), forall|b: int| 0 <= b < j ==> #[trigger] bm(rv, i as int, b) == (bv(*u, i as int) && bv(*v, b))
@dec n - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i && b == j) implies #[trigger] bm(rv, a, b) == bm(rv0, a, b) by { if a == i { assert(bv(rv.rows.v@[a], b) == bv(rv0.rows.v@[a], b)); } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(bm(rv, i as int, j as int) == bv(rv.rows.v@[i as int], j as int));
@fn bits::bit_matrix_t::paste(bit_matrix_t &) const
@requires bmok(*this), this.num_rows >= 1, bmok(*old(that)), old(that).num_rows >= 1, this.num_cols + old(that).num_cols <= bvmax()
@throws this.num_rows != old(that).num_rows
@onerr *final(that) == *old(that)
@ensures *final(that) == *old(that), bmok(ret), ret.rows.st is Live, ret.num_rows == this.num_rows, ret.num_cols == this.num_cols + old(that).num_cols, forall|i: int, j: int| 0 <= i < this.num_rows && 0 <= j < this.num_cols + old(that).num_cols ==> #[trigger] bm(ret, i, j) == (if j < this.num_cols { bm(*this, i, j) } else { bm(*old(that), i, j - this.num_cols) })
@loop 0
@inv bmok(*this), this.num_rows >= 1, bmok(*that), *that == *old(that), that.num_rows == this.num_rows, this.num_cols + that.num_cols <= bvmax(), bmok(rv), rv.rows.st is Live, rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + that.num_cols, 0 <= i <= this.num_rows, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] bm(rv, a, b) == bm(*this, a, b)
@dec this.num_rows - i
@loop 1
@inv bmok(*this), this.num_rows >= 1, bmok(*that), *that == *old(that), that.num_rows == this.num_rows, this.num_cols + that.num_cols <= bvmax(), bmok(rv), rv.rows.st is Live, rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + that.num_cols, 0 <= j <= this.num_cols, 0 <= i < this.num_rows, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] bm(rv, a, b) == bm(*this, a, b), forall|b: int| 0 <= b < j ==> #[trigger] bm(rv, i as int, b) == bm(*this, i as int, b)
@dec this.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i && b == j) implies #[trigger] bm(rv, a, b) == bm(rv0, a, b) by { if a == i { assert(bv(rv.rows.v@[a], b) == bv(rv0.rows.v@[a], b)); } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(bm(rv, i as int, j as int) == bm(*this, i as int, j as int));
@loop 2
@inv bmok(*this), this.num_rows >= 1, bmok(*that), *that == *old(that), that.num_rows == this.num_rows, this.num_cols + that.num_cols <= bvmax(), bmok(rv), rv.rows.st is Live, rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + that.num_cols, 0 <= i <= this.num_rows, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] bm(rv, a, b) == bm(*this, a, b), forall|a: int, b: int| 0 <= a < i && this.num_cols <= b < rv.num_cols ==> #[trigger] bm(rv, a, b) == bm(*that, a, b - this.num_cols)
@dec this.num_rows - i
@loop 3
@inv bmok(*this), this.num_rows >= 1, bmok(*that), *that == *old(that), that.num_rows == this.num_rows, this.num_cols + that.num_cols <= bvmax(), bmok(rv), rv.rows.st is Live, rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + that.num_cols, 0 <= j <= that.num_cols, 0 <= i < this.num_rows, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] bm(rv, a, b) == bm(*this, a, b), forall|a: int, b: int| 0 <= a < i && this.num_cols <= b < rv.num_cols ==> #[trigger] bm(rv, a, b) == bm(*that, a, b - this.num_cols), forall|b: int| this.num_cols <= b < this.num_cols + j ==> #[trigger] bm(rv, i as int, b) == bm(*that, i as int, b - this.num_cols)
@dec that.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i && b == this.num_cols + j) implies #[trigger] bm(rv, a, b) == bm(rv0, a, b) by { if a == i { assert(bv(rv.rows.v@[a], b) == bv(rv0.rows.v@[a], b)); } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(bm(rv, i as int, this.num_cols + j) == bm(*that, i as int, j as int));
@fn bits::bit_matrix_t::split(bit_matrix_t &, bit_matrix_t &, int) const
@requires bmok(*this), this.num_rows >= 1, bmok(*old(rleft)), bmok(*old(rright))
@throws split_column <= 0 || split_column >= this.num_cols
@onerr *final(rleft) == *old(rleft), *final(rright) == *old(rright)
@ensures bmok(*final(rleft)), bmok(*final(rright)), final(rleft).num_rows == this.num_rows, final(rright).num_rows == this.num_rows, final(rleft).num_cols == split_column, final(rright).num_cols == this.num_cols - split_column, forall|i: int, j: int| 0 <= i < this.num_rows && 0 <= j < split_column ==> #[trigger] bm(*final(rleft), i, j) == bm(*this, i, j), forall|i: int, j: int| 0 <= i < this.num_rows && 0 <= j < this.num_cols - split_column ==> #[trigger] bm(*final(rright), i, j) == bm(*this, i, split_column + j)
@loop 0
@inv bmok(*this), this.num_rows >= 1, 0 < split_column < this.num_cols, bmok(*rleft), bmok(*rright), rleft.num_rows == this.num_rows, rright.num_rows == this.num_rows, rleft.num_cols == split_column, rright.num_cols == this.num_cols - split_column, 0 <= i <= this.num_rows, forall|a: int, b: int| 0 <= a < i && 0 <= b < split_column ==> #[trigger] bm(*rleft, a, b) == bm(*this, a, b)
@dec this.num_rows - i
@loop 1
@inv bmok(*this), this.num_rows >= 1, 0 < split_column < this.num_cols, bmok(*rleft), bmok(*rright), rleft.num_rows == this.num_rows, rright.num_rows == this.num_rows, rleft.num_cols == split_column, rright.num_cols == this.num_cols - split_column, 0 <= j <= split_column, 0 <= i < this.num_rows, forall|a: int, b: int| 0 <= a < i && 0 <= b < split_column ==> #[trigger] bm(*rleft, a, b) == bm(*this, a, b), forall|b: int| 0 <= b < j ==> #[trigger] bm(*rleft, i as int, b) == bm(*this, i as int, b)
@dec split_column - j
@top
let ghost rl0 = *rleft;
@end assert forall|a: int, b: int| 0 <= a < rleft.num_rows && 0 <= b < rleft.num_cols && !(a == i && b == j) implies #[trigger] bm(*rleft, a, b) == bm(rl0, a, b) by { if a == i { assert(bv(rleft.rows.v@[a], b) == bv(rl0.rows.v@[a], b)); } else { assert(rleft.rows.v@[a] == rl0.rows.v@[a]); } }
assert(bm(*rleft, i as int, j as int) == bm(*this, i as int, j as int));
@loop 2
@inv bmok(*this), this.num_rows >= 1, 0 < split_column < this.num_cols, bmok(*rleft), bmok(*rright), rleft.num_rows == this.num_rows, rright.num_rows == this.num_rows, rleft.num_cols == split_column, rright.num_cols == this.num_cols - split_column, 0 <= i <= this.num_rows, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < split_column ==> #[trigger] bm(*rleft, a, b) == bm(*this, a, b), forall|a: int, b: int| 0 <= a < i && 0 <= b < rright.num_cols ==> #[trigger] bm(*rright, a, b) == bm(*this, a, split_column + b)
@dec this.num_rows - i
@loop 3
@inv bmok(*this), this.num_rows >= 1, 0 < split_column < this.num_cols, bmok(*rleft), bmok(*rright), rleft.num_rows == this.num_rows, rright.num_rows == this.num_rows, rleft.num_cols == split_column, rright.num_cols == this.num_cols - split_column, split_column <= j <= this.num_cols, 0 <= i < this.num_rows, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < split_column ==> #[trigger] bm(*rleft, a, b) == bm(*this, a, b), forall|a: int, b: int| 0 <= a < i && 0 <= b < rright.num_cols ==> #[trigger] bm(*rright, a, b) == bm(*this, a, split_column + b), forall|b: int| 0 <= b < j - split_column ==> #[trigger] bm(*rright, i as int, b) == bm(*this, i as int, split_column + b)
@dec this.num_cols - j
@top
let ghost rl0 = *rright;
@end assert forall|a: int, b: int| 0 <= a < rright.num_rows && 0 <= b < rright.num_cols && !(a == i && b == j - split_column) implies #[trigger] bm(*rright, a, b) == bm(rl0, a, b) by { if a == i { assert(bv(rright.rows.v@[a], b) == bv(rl0.rows.v@[a], b)); } else { assert(rright.rows.v@[a] == rl0.rows.v@[a]); } }
assert(bm(*rright, i as int, j - split_column) == bm(*this, i as int, j as int));
@fn bits::bit_matrix_t::check_inverse(bit_matrix_t &) const
@requires bmok(*this), this.num_rows >= 1, this.num_rows <= bvmax(), bmok(*old(rinv)), 1 <= old(rinv).num_rows <= bvmax()
@maythrow true
@ensures *final(rinv) == *old(rinv), this.num_rows == old(rinv).num_cols, this.num_cols == old(rinv).num_rows, forall|i: int, j: int| 0 <= i < this.num_rows && 0 <= j < this.num_rows ==> #[trigger] mdot(*this, *old(rinv), i, j, this.num_cols as int) == (i == j), forall|i: int, j: int| 0 <= i < this.num_cols && 0 <= j < this.num_cols ==> #[trigger] mdot(*old(rinv), *this, i, j, this.num_rows as int) == (i == j)
@exit lemma_prodI(AB, *this, *rinv, this.num_cols as int); lemma_prodI(BA, *rinv, *this, rinv.num_cols as int);
