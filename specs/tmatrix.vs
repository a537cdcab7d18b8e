# ---- C19: tmatrix, instantiated with intmod_t
@fn inst::tmatrix<spffl::intmath::intmod_t>::tmatrix()
@ensures tmok(ret), ret.num_rows == 0, ret.num_cols == 0, ret.rows.st is Null
@fn inst::tmatrix<spffl::intmath::intmod_t>::tmatrix(int, int)
@throws init_num_rows <= 0 || init_num_cols <= 0
@ensures tmlive(ret), ret.num_rows == init_num_rows, ret.num_cols == init_num_cols
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies tvst(#[trigger] this.rows.v@[k]) by { assert(dflt_tvector_intmod_t(this.rows.v@[k])); }
@inv 0 <= i <= init_num_rows, this.rows.st is Live, this.rows.v@.len() == init_num_rows, this.num_rows == init_num_rows, this.num_cols == init_num_cols, 1 <= init_num_cols, forall|k: int| 0 <= k < this.rows.v@.len() ==> tvst(#[trigger] this.rows.v@[k]), forall|k: int| 0 <= k < i ==> tmrow(#[trigger] this.rows.v@[k], init_num_cols as int)
@dec init_num_rows - i
@fn inst::tmatrix<spffl::intmath::intmod_t>::tmatrix(spffl::intmath::intmod_t, int, int)
@throws init_num_rows <= 0 || init_num_cols <= 0
@ensures tmlive(ret), ret.num_rows == init_num_rows, ret.num_cols == init_num_cols, tmall(ret, e, ret.num_rows as int)
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies tvst(#[trigger] this.rows.v@[k]) by { assert(dflt_tvector_intmod_t(this.rows.v@[k])); }
@inv 0 <= i <= init_num_rows, this.rows.st is Live, this.rows.v@.len() == init_num_rows, this.num_rows == init_num_rows, this.num_cols == init_num_cols, 1 <= init_num_cols, forall|k: int| 0 <= k < this.rows.v@.len() ==> tvst(#[trigger] this.rows.v@[k]), forall|k: int| 0 <= k < i ==> tmrow(#[trigger] this.rows.v@[k], init_num_cols as int), tmall(this, e, i as int)
@dec init_num_rows - i
@fn inst::tmatrix<spffl::intmath::intmod_t>::tmatrix(const tmatrix<intmod_t> &)
@requires tmlive(*that)
@ensures tmlive(ret), tmsame(ret, *that)
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies tvst(#[trigger] this.rows.v@[k]) by { assert(dflt_tvector_intmod_t(this.rows.v@[k])); }
@inv 0 <= i <= that.num_rows, tmlive(*that), this.rows.st is Live, this.rows.v@.len() == that.num_rows, this.num_rows == that.num_rows, this.num_cols == that.num_cols, forall|k: int| 0 <= k < this.rows.v@.len() ==> tvst(#[trigger] this.rows.v@[k]), forall|k: int| 0 <= k < i ==> tmrow(#[trigger] this.rows.v@[k], that.num_cols as int), tmsameto(this, *that, i as int)
@dec that.num_rows - i
@fn inst::tmatrix<spffl::intmath::intmod_t>::nullify()
@ensures final(this).rows.st is Null, final(this).rows.v@.len() == 0, final(this).num_rows == 0, final(this).num_cols == 0
@fn inst::tmatrix<spffl::intmath::intmod_t>::mfree()
@requires !(old(this).rows.st is Dead)
@ensures final(this).rows.st is Null, final(this).rows.v@.len() == 0, final(this).num_rows == 0, final(this).num_cols == 0
@fn inst::tmatrix<spffl::intmath::intmod_t>::get_num_rows() const
@ensures ret == this.num_rows
@fn inst::tmatrix<spffl::intmath::intmod_t>::get_num_cols() const
@ensures ret == this.num_cols
@fn inst::tmatrix<spffl::intmath::intmod_t>::is_square() const
@ensures ret == (this.num_rows == this.num_cols)
@fn inst::tmatrix<spffl::intmath::intmod_t>::trim_num_rows(int)
@requires tmok(*old(this))
@throws new_num_rows < 1 || new_num_rows > old(this).num_rows
@onerr *final(this) == *old(this)
@ensures tmok(*final(this)), final(this).rows == old(this).rows, final(this).num_rows == new_num_rows, final(this).num_cols == old(this).num_cols
@fn inst::tmatrix<spffl::intmath::intmod_t>::check_dims(const tmatrix<intmod_t> &, const std::string &) const
@throws !tmdim(*this, *that)
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator=(const tmatrix<intmod_t> &)
@requires tmok(*old(this)), tmlive(*that)
@ensures tmlive(*final(this)), tmsame(*final(this), *that)
@entry
let ghost b = *that;
@loop 0
@before assert forall|k: int| 0 <= k < this.rows.v@.len() implies tvst(#[trigger] this.rows.v@[k]) by { assert(dflt_tvector_intmod_t(this.rows.v@[k])); }
@inv 0 <= i <= that.num_rows, *that == b, tmlive(*that), this.rows.st is Live, this.rows.v@.len() == that.num_rows, this.num_rows == that.num_rows, this.num_cols == that.num_cols, forall|k: int| 0 <= k < this.rows.v@.len() ==> tvst(#[trigger] this.rows.v@[k]), forall|k: int| 0 <= k < i ==> tmrow(#[trigger] this.rows.v@[k], that.num_cols as int)
@dec that.num_rows - i
@loop 1
@inv 0 <= i <= that.num_rows, tmlive(b), tmlive(*that), tmsame(*that, b), tmlive(*this), this.num_rows == that.num_rows, this.num_cols == that.num_cols, tmsameto(*this, b, i as int)
@dec that.num_rows - i
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator=(const spffl::intmath::intmod_t &)
@requires tmok(*old(this))
@ensures tmlive(*final(this)), old(this).rows.st is Live ==> tmdim(*final(this), *old(this)), old(this).rows.st is Null ==> final(this).num_rows == 1 && final(this).num_cols == 1, tmall(*final(this), *scalar, final(this).num_rows as int)
@beforecall operator= 1 assert(dflt_tvector_intmod_t(this.rows.v@[0]));
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmdim(*this, *old(this)), old(this).rows.st is Live, tmall(*this, *scalar, i as int)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmdim(*this, *old(this)), old(this).rows.st is Live, tmall(*this, *scalar, i as int), forall|k: int| 0 <= k < j ==> #[trigger] this.rows.v@[i as int].elements.v@[k] == *scalar
@dec this.num_cols - j
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator==(const tmatrix<intmod_t> &) const
@requires tmlive(*this), tmf(*this), tmlive(*that), tmf(*that)
@throws !tmdim(*this, *that)
@ensures ret == tmsame(*this, *that)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmdim(*this, *that), tmsameto(*this, *that, i as int)
@dec this.num_rows - i
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator==(const spffl::intmath::intmod_t &) const
@requires tmlive(*this), tmf(*this), mset(*e)
@ensures ret == tmall(*this, *e, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), mset(*e), tmall(*this, *e, i as int)
@dec this.num_rows - i
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator!=(const tmatrix<intmod_t> &) const
@requires tmlive(*this), tmf(*this), tmlive(*that), tmf(*that)
@throws !tmdim(*this, *that)
@ensures ret == !tmsame(*this, *that)
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator!=(const spffl::intmath::intmod_t &) const
@requires tmlive(*this), tmf(*this), mset(*e)
@ensures ret == !tmall(*this, *e, this.num_rows as int)
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator+(const tmatrix<intmod_t> &) const
@requires tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that)
@throws !tmdim(*this, *that)
@ensures tmlive(ret), tmdim(ret, *this), tmadd(ret, *this, *that, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), tmdim(*this, *that), tmlive(rv), tmdim(rv, *this), tmadd(rv, *this, *that, i as int)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), tmdim(*this, *that), tmlive(rv), tmdim(rv, *this), tmadd(rv, *this, *that, i as int), tvadd(rv.rows.v@[i as int], this.rows.v@[i as int], that.rows.v@[i as int], j as int)
@dec this.num_cols - j
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator-(const tmatrix<intmod_t> &) const
@requires tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that)
@throws !tmdim(*this, *that)
@ensures tmlive(ret), tmdim(ret, *this), tmsub(ret, *this, *that, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), tmdim(*this, *that), tmlive(rv), tmdim(rv, *this), tmsub(rv, *this, *that, i as int)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), tmdim(*this, *that), tmlive(rv), tmdim(rv, *this), tmsub(rv, *this, *that, i as int), tvsub(rv.rows.v@[i as int], this.rows.v@[i as int], that.rows.v@[i as int], j as int)
@dec this.num_cols - j
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator-() const
@requires tmlive(*this), tmf(*this)
@ensures tmlive(ret), tmdim(ret, *this), tmneg(ret, *this, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), tmlive(rv), tmdim(rv, *this), tmneg(rv, *this, i as int)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmf(*this), tmlive(rv), tmdim(rv, *this), tmneg(rv, *this, i as int), tvneg(rv.rows.v@[i as int], this.rows.v@[i as int], j as int)
@dec this.num_cols - j
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator*(const spffl::intmath::intmod_t &) const
@requires tmlive(*this), tmf(*this), mset(*e), e.modulus == tmm(*this)
@ensures tmlive(ret), tmdim(ret, *this), tmmuls(ret, *this, *e, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), mset(*e), e.modulus == tmm(*this), tmlive(rv), tmdim(rv, *this), tmmuls(rv, *this, *e, i as int)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmf(*this), mset(*e), e.modulus == tmm(*this), tmlive(rv), tmdim(rv, *this), tmmuls(rv, *this, *e, i as int), tvmuls(rv.rows.v@[i as int], this.rows.v@[i as int], *e, j as int)
@dec this.num_cols - j
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator+(const spffl::intmath::intmod_t &) const
@requires tmlive(*this), tmf(*this), mset(*e), e.modulus == tmm(*this)
@throws this.num_rows != this.num_cols
@ensures tmlive(ret), tmdim(ret, *this), tmdiag(ret, *this, e.residue as int, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), mset(*e), e.modulus == tmm(*this), this.num_rows == this.num_cols, tmlive(rv), tmdim(rv, *this), tmdiag(rv, *this, e.residue as int, i as int), forall|k: int| i <= k < this.num_rows ==> tvsame(#[trigger] rv.rows.v@[k], this.rows.v@[k])
@dec this.num_rows - i
@top assert(tvsame(rv.rows.v@[i as int], this.rows.v@[i as int])); assert(rset(this.rows.v@[i as int], tmm(*this))); assert(rv.rows.v@[i as int].elements.v@[i as int] == this.rows.v@[i as int].elements.v@[i as int]);
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator-(const spffl::intmath::intmod_t &) const
@requires tmlive(*this), tmf(*this), mset(*e), e.modulus == tmm(*this)
@throws this.num_rows != this.num_cols
@ensures tmlive(ret), tmdim(ret, *this), tmdiag(ret, *this, -e.residue as int, this.num_rows as int)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), mset(*e), e.modulus == tmm(*this), this.num_rows == this.num_cols, tmlive(rv), tmdim(rv, *this), tmdiag(rv, *this, -e.residue as int, i as int), forall|k: int| i <= k < this.num_rows ==> tvsame(#[trigger] rv.rows.v@[k], this.rows.v@[k])
@dec this.num_rows - i
@top assert(tvsame(rv.rows.v@[i as int], this.rows.v@[i as int])); assert(rset(this.rows.v@[i as int], tmm(*this))); assert(rv.rows.v@[i as int].elements.v@[i as int] == this.rows.v@[i as int].elements.v@[i as int]);
@fn inst::tmatrix<spffl::intmath::intmod_t>::get_column(int) const
@requires tmlive(*this)
@throws col_index < 0 || col_index >= this.num_cols
@ensures tvst(ret), ret.elements.st is Live, ret.num_elements == this.num_rows, forall|k: int| 0 <= k < this.num_rows ==> #[trigger] ret.elements.v@[k] == te(*this, k, col_index as int)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), 0 <= col_index < this.num_cols, tvst(rv), rv.elements.st is Live, rv.num_elements == this.num_rows, forall|k: int| 0 <= k < i ==> #[trigger] rv.elements.v@[k] == te(*this, k, col_index as int)
@dec this.num_rows - i
@fn inst::tmatrix<spffl::intmath::intmod_t>::put_column(int, tvector<intmod_t> &)
@requires tmlive(*old(this)), tvst(*old(v))
@throws col_index < 0 || col_index >= old(this).num_cols || old(v).num_elements != old(this).num_rows
@onerr *final(this) == *old(this), *final(v) == *old(v)
@ensures *final(v) == *old(v), tmlive(*final(this)), tmdim(*final(this), *old(this)), forall|a: int, b: int| 0 <= a < old(this).num_rows && 0 <= b < old(this).num_cols ==> #[trigger] te(*final(this), a, b) == (if b == col_index { old(v).elements.v@[a] } else { te(*old(this), a, b) })
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmdim(*this, *old(this)), 0 <= col_index < this.num_cols, *v == *old(v), tvst(*v), v.num_elements == this.num_rows, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(*this, a, b) == (if b == col_index && a < i { v.elements.v@[a] } else { te(*old(this), a, b) })
@dec this.num_rows - i
@top
let ghost m0 = *this;
@end assert forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols implies #[trigger] te(*this, a, b) == (if b == col_index && a < i + 1 { v.elements.v@[a] } else { te(*old(this), a, b) }) by { assert(te(m0, a, b) == (if b == col_index && a < i { v.elements.v@[a] } else { te(*old(this), a, b) })); }
@fn inst::tmatrix<spffl::intmath::intmod_t>::transpose() const
@requires tmlive(*this)
@ensures tmlive(ret), ret.num_rows == this.num_cols, ret.num_cols == this.num_rows, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(ret, b, a) == te(*this, a, b)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmlive(rv), rv.num_rows == this.num_cols, rv.num_cols == this.num_rows, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, b, a) == te(*this, a, b)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmlive(rv), rv.num_rows == this.num_cols, rv.num_cols == this.num_rows, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, b, a) == te(*this, a, b), forall|b: int| 0 <= b < j ==> #[trigger] te(rv, b, i as int) == te(*this, i as int, b)
@dec this.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == j as int && b == i as int) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == j as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, j as int, i as int) == te(*this, i as int, j as int));
@fn inst::tmatrix<spffl::intmath::intmod_t>::flip_horiz() const
@requires tmlive(*this)
@ensures tmlive(ret), tmdim(ret, *this), forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(ret, a, b) == te(*this, a, this.num_cols - 1 - b)
@loop 0
@inv 0 <= i <= nr, tmlive(*this), tmlive(rv), tmdim(rv, *this), nr == this.num_rows, nc == this.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, this.num_cols - 1 - b)
@dec nr - i
@loop 1
@inv 0 <= j <= nc, 0 <= i < nr, tmlive(*this), tmlive(rv), tmdim(rv, *this), nr == this.num_rows, nc == this.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, this.num_cols - 1 - b), forall|b: int| 0 <= b < j ==> #[trigger] te(rv, i as int, b) == te(*this, i as int, this.num_cols - 1 - b)
@dec nc - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i as int && b == j as int) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, i as int, j as int) == te(*this, i as int, this.num_cols - 1 - j as int));
@fn inst::tmatrix<spffl::intmath::intmod_t>::flip_vert() const
@requires tmlive(*this)
@ensures tmlive(ret), tmdim(ret, *this), forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(ret, a, b) == te(*this, this.num_rows - 1 - a, b)
@loop 0
@inv 0 <= i <= nr, tmlive(*this), tmlive(rv), tmdim(rv, *this), nr == this.num_rows, nc == this.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, this.num_rows - 1 - a, b)
@dec nr - i
@loop 1
@inv 0 <= j <= nc, 0 <= i < nr, tmlive(*this), tmlive(rv), tmdim(rv, *this), nr == this.num_rows, nc == this.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, this.num_rows - 1 - a, b), forall|b: int| 0 <= b < j ==> #[trigger] te(rv, i as int, b) == te(*this, this.num_rows - 1 - i as int, b)
@dec nc - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i as int && b == j as int) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, i as int, j as int) == te(*this, this.num_rows - 1 - i as int, j as int));
@fn inst::tmatrix<spffl::intmath::intmod_t>::flip_horiz_vert() const
@requires tmlive(*this)
@ensures tmlive(ret), tmdim(ret, *this), forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(ret, a, b) == te(*this, this.num_rows - 1 - a, this.num_cols - 1 - b)
@loop 0
@inv 0 <= i <= nr, tmlive(*this), tmlive(rv), tmdim(rv, *this), nr == this.num_rows, nc == this.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, this.num_rows - 1 - a, this.num_cols - 1 - b)
@dec nr - i
@loop 1
@inv 0 <= j <= nc, 0 <= i < nr, tmlive(*this), tmlive(rv), tmdim(rv, *this), nr == this.num_rows, nc == this.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, this.num_rows - 1 - a, this.num_cols - 1 - b), forall|b: int| 0 <= b < j ==> #[trigger] te(rv, i as int, b) == te(*this, this.num_rows - 1 - i as int, this.num_cols - 1 - b)
@dec nc - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i as int && b == j as int) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, i as int, j as int) == te(*this, this.num_rows - 1 - i as int, this.num_cols - 1 - j as int));
@fn inst::tmatrix<spffl::intmath::intmod_t>::make_I(spffl::intmath::intmod_t, spffl::intmath::intmod_t) const
@requires tmlive(*this)
@throws this.num_rows != this.num_cols
@ensures tmlive(ret), tmdim(ret, *this), forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(ret, a, b) == (if a == b { one } else { zero })
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), this.num_rows == this.num_cols, tmlive(rv), tmdim(rv, *this), forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == (if a == b { one } else { zero })
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), this.num_rows == this.num_cols, tmlive(rv), tmdim(rv, *this), forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == (if a == b { one } else { zero }), forall|b: int| 0 <= b < j ==> #[trigger] te(rv, i as int, b) == (if i == b { one } else { zero })
@dec this.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i as int && b == j as int) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, i as int, j as int) == (if i == j { one } else { zero }));
@fn inst::tmatrix<spffl::intmath::intmod_t>::outer(const tvector<intmod_t> &, const tvector<intmod_t> &)
@requires tvst(*u), tvst(*v), u.num_elements >= 1, v.num_elements >= 1, rset(*u, u.elements.v@[0].modulus as int), rset(*v, u.elements.v@[0].modulus as int)
@ensures tmlive(ret), ret.num_rows == u.num_elements, ret.num_cols == v.num_elements, forall|a: int, b: int| 0 <= a < ret.num_rows && 0 <= b < ret.num_cols ==> emul(#[trigger] te(ret, a, b), u.elements.v@[a], v.elements.v@[b])
@loop 0
@inv 0 <= i <= m, tvst(*u), tvst(*v), u.num_elements >= 1, v.num_elements >= 1, rset(*u, u.elements.v@[0].modulus as int), rset(*v, u.elements.v@[0].modulus as int), m == u.num_elements, n == v.num_elements, tmlive(rv), rv.num_rows == m, rv.num_cols == n, forall|a: int, b: int| 0 <= a < i && 0 <= b < n ==> emul(#[trigger] te(rv, a, b), u.elements.v@[a], v.elements.v@[b])
@dec m - i
@loop 1
@inv 0 <= j <= n, 0 <= i < m, tvst(*u), tvst(*v), u.num_elements >= 1, v.num_elements >= 1, rset(*u, u.elements.v@[0].modulus as int), rset(*v, u.elements.v@[0].modulus as int), m == u.num_elements, n == v.num_elements, tmlive(rv), rv.num_rows == m, rv.num_cols == n, forall|a: int, b: int| 0 <= a < i && 0 <= b < n ==> emul(#[trigger] te(rv, a, b), u.elements.v@[a], v.elements.v@[b]), forall|b: int| 0 <= b < j ==> emul(#[trigger] te(rv, i as int, b), u.elements.v@[i as int], v.elements.v@[b])
@dec n - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i as int && b == j as int) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, i as int, j as int) == te(rv, i as int, j as int));
@fn inst::tmatrix<spffl::intmath::intmod_t>::paste(const tmatrix<intmod_t> &) const
@requires tmlive(*this), tmlive(*that), this.num_cols + that.num_cols <= 0x7fff_ffff
@throws this.num_rows != that.num_rows
@ensures tmlive(ret), ret.num_rows == this.num_rows, ret.num_cols == this.num_cols + that.num_cols, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols + that.num_cols ==> #[trigger] te(ret, a, b) == (if b < this.num_cols { te(*this, a, b) } else { te(*that, a, b - this.num_cols) })
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmlive(*that), this.num_cols + that.num_cols <= 0x7fff_ffff, this.num_rows == that.num_rows, tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, b)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmlive(*that), this.num_cols + that.num_cols <= 0x7fff_ffff, this.num_rows == that.num_rows, tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, b), forall|b: int| 0 <= b < j ==> #[trigger] te(rv, i as int, b) == te(*this, i as int, b)
@dec this.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i as int && b == j as int) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, i as int, j as int) == te(*this, i as int, j as int));
@loop 2
@inv 0 <= i <= this.num_rows, tmlive(*this), tmlive(*that), this.num_cols + that.num_cols <= 0x7fff_ffff, this.num_rows == that.num_rows, tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + that.num_cols, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, b), forall|a: int, b: int| 0 <= a < i && this.num_cols <= b < rv.num_cols ==> #[trigger] te(rv, a, b) == te(*that, a, b - this.num_cols)
@dec this.num_rows - i
@loop 3
@inv 0 <= j <= that.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmlive(*that), this.num_cols + that.num_cols <= 0x7fff_ffff, this.num_rows == that.num_rows, tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + that.num_cols, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, b), forall|a: int, b: int| 0 <= a < i && this.num_cols <= b < rv.num_cols ==> #[trigger] te(rv, a, b) == te(*that, a, b - this.num_cols), forall|b: int| this.num_cols <= b < this.num_cols + j ==> #[trigger] te(rv, i as int, b) == te(*that, i as int, b - this.num_cols)
@dec that.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i as int && b == this.num_cols + j) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, i as int, this.num_cols + j) == te(*that, i as int, j as int));
@fn inst::tmatrix<spffl::intmath::intmod_t>::paste_vector(const tvector<intmod_t> &) const
@requires tmlive(*this), tvst(*v), this.num_cols < 0x7fff_ffff
@throws this.num_rows != v.num_elements
@ensures tmlive(ret), ret.num_rows == this.num_rows, ret.num_cols == this.num_cols + 1, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols + 1 ==> #[trigger] te(ret, a, b) == (if b < this.num_cols { te(*this, a, b) } else { v.elements.v@[a] })
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tvst(*v), this.num_cols < 0x7fff_ffff, this.num_rows == v.num_elements, tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + 1, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, b)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tvst(*v), this.num_cols < 0x7fff_ffff, this.num_rows == v.num_elements, tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + 1, forall|a: int, b: int| 0 <= a < i && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, b), forall|b: int| 0 <= b < j ==> #[trigger] te(rv, i as int, b) == te(*this, i as int, b)
@dec this.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i as int && b == j as int) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(rv, i as int, j as int) == te(*this, i as int, j as int));
@loop 2
@inv 0 <= i <= this.num_rows, tmlive(*this), tvst(*v), this.num_cols < 0x7fff_ffff, this.num_rows == v.num_elements, tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == this.num_cols + 1, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols ==> #[trigger] te(rv, a, b) == te(*this, a, b), forall|a: int| 0 <= a < i ==> #[trigger] te(rv, a, this.num_cols as int) == v.elements.v@[a]
@dec this.num_rows - i
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i && b == this.num_cols) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
@fn inst::tmatrix<spffl::intmath::intmod_t>::split(tmatrix<intmod_t> &, tmatrix<intmod_t> &, int) const
@requires tmlive(*this), tmok(*old(rleft)), tmok(*old(rright))
@throws split_column <= 0 || split_column >= this.num_cols
@onerr *final(rleft) == *old(rleft), *final(rright) == *old(rright)
@ensures tmlive(*final(rleft)), tmlive(*final(rright)), final(rleft).num_rows == this.num_rows, final(rright).num_rows == this.num_rows, final(rleft).num_cols == split_column, final(rright).num_cols == this.num_cols - split_column, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < split_column ==> #[trigger] te(*final(rleft), a, b) == te(*this, a, b), forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < this.num_cols - split_column ==> #[trigger] te(*final(rright), a, b) == te(*this, a, split_column + b)
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), 0 < split_column < this.num_cols, tmlive(*rleft), tmlive(*rright), rleft.num_rows == this.num_rows, rright.num_rows == this.num_rows, rleft.num_cols == split_column, rright.num_cols == this.num_cols - split_column, forall|a: int, b: int| 0 <= a < i && 0 <= b < split_column ==> #[trigger] te(*rleft, a, b) == te(*this, a, b)
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= split_column, 0 <= i < this.num_rows, tmlive(*this), 0 < split_column < this.num_cols, tmlive(*rleft), tmlive(*rright), rleft.num_rows == this.num_rows, rright.num_rows == this.num_rows, rleft.num_cols == split_column, rright.num_cols == this.num_cols - split_column, forall|a: int, b: int| 0 <= a < i && 0 <= b < split_column ==> #[trigger] te(*rleft, a, b) == te(*this, a, b), forall|b: int| 0 <= b < j ==> #[trigger] te(*rleft, i as int, b) == te(*this, i as int, b)
@dec split_column - j
@top
let ghost rv0 = *rleft;
@end assert forall|a: int, b: int| 0 <= a < rleft.num_rows && 0 <= b < rleft.num_cols && !(a == i as int && b == j as int) implies #[trigger] te(*rleft, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rleft.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(*rleft, i as int, j as int) == te(*this, i as int, j as int));
@loop 2
@inv 0 <= i <= this.num_rows, tmlive(*this), 0 < split_column < this.num_cols, tmlive(*rleft), tmlive(*rright), rleft.num_rows == this.num_rows, rright.num_rows == this.num_rows, rleft.num_cols == split_column, rright.num_cols == this.num_cols - split_column, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < split_column ==> #[trigger] te(*rleft, a, b) == te(*this, a, b), forall|a: int, b: int| 0 <= a < i && 0 <= b < rright.num_cols ==> #[trigger] te(*rright, a, b) == te(*this, a, split_column + b)
@dec this.num_rows - i
@loop 3
@inv split_column <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), 0 < split_column < this.num_cols, tmlive(*rleft), tmlive(*rright), rleft.num_rows == this.num_rows, rright.num_rows == this.num_rows, rleft.num_cols == split_column, rright.num_cols == this.num_cols - split_column, forall|a: int, b: int| 0 <= a < this.num_rows && 0 <= b < split_column ==> #[trigger] te(*rleft, a, b) == te(*this, a, b), forall|a: int, b: int| 0 <= a < i && 0 <= b < rright.num_cols ==> #[trigger] te(*rright, a, b) == te(*this, a, split_column + b), forall|b: int| 0 <= b < j - split_column ==> #[trigger] te(*rright, i as int, b) == te(*this, i as int, split_column + b)
@dec this.num_cols - j
@top
let ghost rv0 = *rright;
@end assert forall|a: int, b: int| 0 <= a < rright.num_rows && 0 <= b < rright.num_cols && !(a == i as int && b == j - split_column) implies #[trigger] te(*rright, a, b) == te(rv0, a, b) by { if a == i as int { } else { assert(rright.rows.v@[a] == rv0.rows.v@[a]); } }
assert(te(*rright, i as int, j - split_column) == te(*this, i as int, j as int));
@fn inst::tmatrix<spffl::intmath::intmod_t>::swap(int, int)
@requires tmlive(*old(this)), 0 <= arow < old(this).num_rows, 0 <= brow < old(this).num_rows, arow != brow
@ensures tmlive(*final(this)), tmdim(*final(this), *old(this)), tvsame(final(this).rows.v@[arow as int], old(this).rows.v@[brow as int]), tvsame(final(this).rows.v@[brow as int], old(this).rows.v@[arow as int]), forall|k: int| 0 <= k < old(this).num_rows && k != arow && k != brow ==> #[trigger] final(this).rows.v@[k] == old(this).rows.v@[k]
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator*(const tmatrix<intmod_t> &) const
@requires tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that)
@throws this.num_cols != that.num_rows
@ensures tmlive(ret), ret.num_rows == this.num_rows, ret.num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < ret.num_rows && 0 <= b < ret.num_cols ==> eis(#[trigger] te(ret, a, b), mdots(*this, *that, a, b, this.num_cols as int), tmm(*this))
@entry assert(rset(this.rows.v@[0], tmm(*this))); lemma_zero_mod(tmm(*this));
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), this.num_cols == that.num_rows, zero.residue == 0, mset(zero), zero.modulus == tmm(*this), tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < rv.num_cols ==> #[trigger] te(rv, a, b) == zero
@dec this.num_rows - i
@loop 1
@inv 0 <= j <= that.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), this.num_cols == that.num_rows, zero.residue == 0, mset(zero), zero.modulus == tmm(*this), tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < rv.num_cols ==> #[trigger] te(rv, a, b) == zero, forall|b: int| 0 <= b < j ==> #[trigger] te(rv, i as int, b) == zero
@dec that.num_cols - j
@top
let ghost rv0 = rv;
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i && b == j) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
@loop 2
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), this.num_cols == that.num_rows, zero.residue == 0, mset(zero), zero.modulus == tmm(*this), tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < rv.num_cols ==> eis(#[trigger] te(rv, a, b), mdots(*this, *that, a, b, this.num_cols as int), tmm(*this)), forall|a: int, b: int| i <= a < rv.num_rows && 0 <= b < rv.num_cols ==> #[trigger] te(rv, a, b) == zero
@dec this.num_rows - i
@loop 3
@inv 0 <= j <= that.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), this.num_cols == that.num_rows, zero.residue == 0, mset(zero), zero.modulus == tmm(*this), tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < rv.num_cols ==> eis(#[trigger] te(rv, a, b), mdots(*this, *that, a, b, this.num_cols as int), tmm(*this)), forall|a: int, b: int| i < a < rv.num_rows && 0 <= b < rv.num_cols ==> #[trigger] te(rv, a, b) == zero, forall|b: int| 0 <= b < j ==> eis(#[trigger] te(rv, i as int, b), mdots(*this, *that, i as int, b, this.num_cols as int), tmm(*this)), forall|b: int| j <= b < rv.num_cols ==> #[trigger] te(rv, i as int, b) == zero
@dec that.num_cols - j
@top lemma_zero_mod(tmm(*this)); assert(te(rv, i as int, j as int) == zero);
@loop 4
@inv 0 <= k <= this.num_cols, 0 <= j < that.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmf(*this), tmlive(*that), tmf(*that), tmm(*this) == tmm(*that), this.num_cols == that.num_rows, zero.residue == 0, mset(zero), zero.modulus == tmm(*this), tmlive(rv), rv.num_rows == this.num_rows, rv.num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < i && 0 <= b < rv.num_cols ==> eis(#[trigger] te(rv, a, b), mdots(*this, *that, a, b, this.num_cols as int), tmm(*this)), forall|a: int, b: int| i < a < rv.num_rows && 0 <= b < rv.num_cols ==> #[trigger] te(rv, a, b) == zero, forall|b: int| 0 <= b < j ==> eis(#[trigger] te(rv, i as int, b), mdots(*this, *that, i as int, b, this.num_cols as int), tmm(*this)), forall|b: int| j + 1 <= b < rv.num_cols ==> #[trigger] te(rv, i as int, b) == zero, eis(te(rv, i as int, j as int), mdots(*this, *that, i as int, j as int, k as int), tmm(*this))
@dec this.num_cols - k
@top
let ghost rv0 = rv;
assert(rset(this.rows.v@[i as int], tmm(*this))); assert(rset(that.rows.v@[k as int], tmm(*this))); lemma_dotstep(te(rv, i as int, j as int), mdots(*this, *that, i as int, j as int, k as int), te(*this, i as int, k as int).residue as int, te(*that, k as int, j as int).residue as int, tmm(*this)); reveal_with_fuel(mdots, 2);
@end assert forall|a: int, b: int| 0 <= a < rv.num_rows && 0 <= b < rv.num_cols && !(a == i && b == j) implies #[trigger] te(rv, a, b) == te(rv0, a, b) by { if a == i { } else { assert(rv.rows.v@[a] == rv0.rows.v@[a]); } }
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator*(const tvector<intmod_t> &) const
@requires tmlive(*this), tmf(*this), tvst(*v), rset(*v, tmm(*this))
@throws this.num_cols != v.num_elements
@ensures tvst(ret), ret.num_elements == this.num_rows, forall|a: int| 0 <= a < ret.num_elements ==> eis(#[trigger] ret.elements.v@[a], mvdots(*this, *v, a, this.num_cols as int), tmm(*this))
@entry assert(rset(this.rows.v@[0], tmm(*this))); lemma_zero_mod(tmm(*this));
@loop 0
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), tvst(*v), rset(*v, tmm(*this)), this.num_cols == v.num_elements, zero.residue == 0, mset(zero), zero.modulus == tmm(*this), tvst(rv), rv.elements.st is Live, rv.num_elements == this.num_rows, forall|a: int| 0 <= a < i ==> #[trigger] rv.elements.v@[a] == zero
@dec this.num_rows - i
@loop 1
@inv 0 <= i <= this.num_rows, tmlive(*this), tmf(*this), tvst(*v), rset(*v, tmm(*this)), this.num_cols == v.num_elements, zero.residue == 0, mset(zero), zero.modulus == tmm(*this), tvst(rv), rv.elements.st is Live, rv.num_elements == this.num_rows, forall|a: int| 0 <= a < i ==> eis(#[trigger] rv.elements.v@[a], mvdots(*this, *v, a, this.num_cols as int), tmm(*this)), forall|a: int| i <= a < rv.num_elements ==> #[trigger] rv.elements.v@[a] == zero
@dec this.num_rows - i
@top lemma_zero_mod(tmm(*this)); assert(rv.elements.v@[i as int] == zero);
@loop 2
@inv 0 <= j <= this.num_cols, 0 <= i < this.num_rows, tmlive(*this), tmf(*this), tvst(*v), rset(*v, tmm(*this)), this.num_cols == v.num_elements, zero.residue == 0, mset(zero), zero.modulus == tmm(*this), tvst(rv), rv.elements.st is Live, rv.num_elements == this.num_rows, forall|a: int| 0 <= a < i ==> eis(#[trigger] rv.elements.v@[a], mvdots(*this, *v, a, this.num_cols as int), tmm(*this)), forall|a: int| i < a < rv.num_elements ==> #[trigger] rv.elements.v@[a] == zero, eis(rv.elements.v@[i as int], mvdots(*this, *v, i as int, j as int), tmm(*this))
@dec this.num_cols - j
@top assert(rset(this.rows.v@[i as int], tmm(*this))); lemma_dotstep(rv.elements.v@[i as int], mvdots(*this, *v, i as int, j as int), te(*this, i as int, j as int).residue as int, v.elements.v@[j as int].residue as int, tmm(*this)); reveal_with_fuel(mvdots, 2);
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator+=(const tmatrix<intmod_t> &)
@requires tmlive(*old(this)), tmf(*old(this)), tmlive(*that), tmf(*that), tmm(*old(this)) == tmm(*that)
@throws !tmdim(*old(this), *that)
@onerr *final(this) == *old(this)
@ensures tmlive(*final(this)), tmdim(*final(this), *old(this)), tmadd(*final(this), *old(this), *that, old(this).num_rows as int)
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator+=(const spffl::intmath::intmod_t &)
@requires tmlive(*old(this)), tmf(*old(this)), mset(*e), e.modulus == tmm(*old(this))
@throws old(this).num_rows != old(this).num_cols
@onerr *final(this) == *old(this)
@ensures tmlive(*final(this)), tmdim(*final(this), *old(this)), tmdiag(*final(this), *old(this), e.residue as int, old(this).num_rows as int)
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator-=(const tmatrix<intmod_t> &)
@requires tmlive(*old(this)), tmf(*old(this)), tmlive(*that), tmf(*that), tmm(*old(this)) == tmm(*that)
@throws !tmdim(*old(this), *that)
@onerr *final(this) == *old(this)
@ensures tmlive(*final(this)), tmdim(*final(this), *old(this)), tmsub(*final(this), *old(this), *that, old(this).num_rows as int)
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator-=(const spffl::intmath::intmod_t &)
@requires tmlive(*old(this)), tmf(*old(this)), mset(*e), e.modulus == tmm(*old(this))
@throws old(this).num_rows != old(this).num_cols
@onerr *final(this) == *old(this)
@ensures tmlive(*final(this)), tmdim(*final(this), *old(this)), tmdiag(*final(this), *old(this), -e.residue as int, old(this).num_rows as int)
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator*=(const spffl::intmath::intmod_t &)
@requires tmlive(*old(this)), tmf(*old(this)), mset(*e), e.modulus == tmm(*old(this))
@onerr *final(this) == *old(this)
@ensures tmlive(*final(this)), tmdim(*final(this), *old(this)), tmmuls(*final(this), *old(this), *e, old(this).num_rows as int)
@fn inst::tmatrix<spffl::intmath::intmod_t>::operator*=(const tmatrix<intmod_t> &)
@requires tmlive(*old(this)), tmf(*old(this)), tmlive(*that), tmf(*that), tmm(*old(this)) == tmm(*that)
@throws old(this).num_cols != that.num_rows
@onerr *final(this) == *old(this)
@ensures tmlive(*final(this)), final(this).num_rows == old(this).num_rows, final(this).num_cols == that.num_cols, forall|a: int, b: int| 0 <= a < final(this).num_rows && 0 <= b < final(this).num_cols ==> eis(#[trigger] te(*final(this), a, b), mdots(*old(this), *that, a, b, old(this).num_cols as int), tmm(*old(this)))
@aftercall operator* 0
let ghost pr = $ret;
@exit lemma_tmsame(*this, pr);
