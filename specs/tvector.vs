# ---- C18: tvector, instantiated with intmod_t
@fn inst::tvector<spffl::intmath::intmod_t>::tvector()
@ensures tvst(ret), ret.num_elements == 0, ret.elements.st is Null
@fn inst::tvector<spffl::intmath::intmod_t>::tvector(int)
@throws init_num_elements <= 0
@ensures tvst(ret), ret.num_elements == init_num_elements, ret.elements.st is Live
@fn inst::tvector<spffl::intmath::intmod_t>::tvector(const spffl::intmath::intmod_t &, int)
@throws init_num_elements <= 0
@ensures tvst(ret), ret.num_elements == init_num_elements, ret.elements.st is Live, tvall(ret, *e)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(this), this.elements.st is Live, this.num_elements == init_num_elements, forall|k: int| 0 <= k < i ==> #[trigger] this.elements.v@[k] == *e
@dec this.num_elements - i
@fn inst::tvector<spffl::intmath::intmod_t>::tvector(const tvector<intmod_t> &)
@requires tvst(*that)
@ensures tvst(ret), tvsame(ret, *that), ret.elements.st is Live
@loop 0
@inv 0 <= i <= that.num_elements, tvst(this), tvst(*that), this.elements.st is Live, this.num_elements == that.num_elements, sameto(this, *that, i as int)
@dec that.num_elements - i
@fn inst::tvector<spffl::intmath::intmod_t>::operator=(const tvector<intmod_t> &)
@requires tvst(*old(this)), tvst(*that)
@ensures tvst(*final(this)), tvsame(*final(this), *that), final(this).elements.st is Live
@entry
let ghost b = *that;
@loop 0
@inv 0 <= i <= that.num_elements, tvst(*this), tvst(*that), this.elements.st is Live, this.num_elements == that.num_elements, that.num_elements == b.num_elements, sameto(*this, b, i as int), sameto(*that, b, that.num_elements as int)
@dec that.num_elements - i
@fn inst::tvector<spffl::intmath::intmod_t>::operator=(const spffl::intmath::intmod_t)
@requires tvst(*old(this))
@ensures tvst(*final(this)), final(this).elements.st is Live, old(this).elements.st is Live ==> final(this).num_elements == old(this).num_elements, old(this).elements.st is Null ==> final(this).num_elements == 1, tvall(*final(this), scalar)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.elements.st is Live, this.num_elements == old(this).num_elements, old(this).elements.st is Live, forall|k: int| 0 <= k < i ==> #[trigger] this.elements.v@[k] == scalar
@dec this.num_elements - i
@fn inst::tvector<spffl::intmath::intmod_t>::check_equal_lengths(const tvector<intmod_t> &) const
@throws this.num_elements != that.num_elements
@fn inst::tvector<spffl::intmath::intmod_t>::trim_num_elements(int)
@requires tvst(*old(this))
@throws new_num_elements < 1 || new_num_elements > old(this).num_elements
@onerr *final(this) == *old(this)
@ensures tvst(*final(this)), final(this).elements == old(this).elements, final(this).num_elements == new_num_elements
@fn inst::tvector<spffl::intmath::intmod_t>::get_num_elements() const
@ensures ret == this.num_elements
@fn inst::tvector<spffl::intmath::intmod_t>::ptrswap(tvector<intmod_t> &)
@requires tvst(*old(this)), tvst(*old(that))
@throws old(this).num_elements != old(that).num_elements
@onerr *final(this) == *old(this), *final(that) == *old(that)
@ensures final(this).elements.v@ == old(that).elements.v@, final(this).elements.st == old(that).elements.st, final(that).elements.v@ == old(this).elements.v@, final(that).elements.st == old(this).elements.st, final(this).num_elements == old(this).num_elements, final(that).num_elements == old(that).num_elements, old(this).num_elements == old(that).num_elements
@fn inst::tvector<spffl::intmath::intmod_t>::operator+(const tvector<intmod_t> &) const
@requires tvst(*this), this.num_elements >= 1, tvok(*this), tvst(*that), tvok(*that)
@throws this.num_elements != that.num_elements || tvmix(*this, *that, this.num_elements as int)
@ensures tvst(ret), ret.elements.st is Live, ret.num_elements == this.num_elements, tvadd(ret, *this, *that, this.num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.num_elements >= 1, tvok(*this), tvst(*that), tvok(*that), this.num_elements == that.num_elements, tvst(rv), rv.num_elements == this.num_elements, rv.elements.st is Live, tvadd(rv, *this, *that, i as int), !tvmix(*this, *that, i as int)
@dec this.num_elements - i
@top assert(mok(this.elements.v@[i as int])); assert(mok(that.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator-(const tvector<intmod_t> &) const
@requires tvst(*this), this.num_elements >= 1, tvok(*this), tvst(*that), tvok(*that)
@throws this.num_elements != that.num_elements || tvmix(*this, *that, this.num_elements as int)
@ensures tvst(ret), ret.elements.st is Live, ret.num_elements == this.num_elements, tvsub(ret, *this, *that, this.num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.num_elements >= 1, tvok(*this), tvst(*that), tvok(*that), this.num_elements == that.num_elements, tvst(rv), rv.num_elements == this.num_elements, rv.elements.st is Live, tvsub(rv, *this, *that, i as int), !tvmix(*this, *that, i as int)
@dec this.num_elements - i
@top assert(mok(this.elements.v@[i as int])); assert(mok(that.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator*(const tvector<intmod_t> &) const
@requires tvst(*this), this.num_elements >= 1, tvok(*this), tvst(*that), tvok(*that)
@throws this.num_elements != that.num_elements || tvmix(*this, *that, this.num_elements as int)
@ensures tvst(ret), ret.elements.st is Live, ret.num_elements == this.num_elements, tvmul(ret, *this, *that, this.num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.num_elements >= 1, tvok(*this), tvst(*that), tvok(*that), this.num_elements == that.num_elements, tvst(rv), rv.num_elements == this.num_elements, rv.elements.st is Live, tvmul(rv, *this, *that, i as int), !tvmix(*this, *that, i as int)
@dec this.num_elements - i
@top assert(mok(this.elements.v@[i as int])); assert(mok(that.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator/(const tvector<intmod_t> &) const
@requires tvst(*this), this.num_elements >= 1, tvok2(*this), tvst(*that), tvok2(*that)
@throws this.num_elements != that.num_elements || tvdbad(*this, *that, this.num_elements as int)
@ensures tvst(ret), ret.elements.st is Live, ret.num_elements == this.num_elements, tvdiv(ret, *this, *that, this.num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.num_elements >= 1, tvok2(*this), tvst(*that), tvok2(*that), this.num_elements == that.num_elements, tvst(rv), rv.num_elements == this.num_elements, rv.elements.st is Live, tvdiv(rv, *this, *that, i as int), !tvdbad(*this, *that, i as int)
@dec this.num_elements - i
@top assert(mok2(this.elements.v@[i as int])); assert(mok2(that.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator-() const
@requires tvst(*this), this.num_elements >= 1, tvok(*this)
@throws tvuns(*this, this.num_elements as int)
@ensures tvst(ret), ret.elements.st is Live, ret.num_elements == this.num_elements, tvneg(ret, *this, this.num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.num_elements >= 1, tvok(*this), tvst(rv), rv.num_elements == this.num_elements, rv.elements.st is Live, tvneg(rv, *this, i as int), !tvuns(*this, i as int)
@dec this.num_elements - i
@top assert(mok(this.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator*(const spffl::intmath::intmod_t &) const
@requires tvst(*this), this.num_elements >= 1, tvok(*this), mok(*s)
@throws tvmixs(*this, *s, this.num_elements as int)
@ensures tvst(ret), ret.elements.st is Live, ret.num_elements == this.num_elements, tvmuls(ret, *this, *s, this.num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.num_elements >= 1, tvok(*this), mok(*s), tvst(rv), rv.num_elements == this.num_elements, rv.elements.st is Live, tvmuls(rv, *this, *s, i as int), !tvmixs(*this, *s, i as int)
@dec this.num_elements - i
@top assert(mok(this.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::exp(int) const
@requires tvst(*this), this.num_elements >= 1, tvok2(*this)
@throws tvebad(*this, power, this.num_elements as int)
@ensures tvst(ret), ret.elements.st is Live, ret.num_elements == this.num_elements, tvexp(ret, *this, power, this.num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.num_elements >= 1, tvok2(*this), tvst(rv), rv.num_elements == this.num_elements, rv.elements.st is Live, tvexp(rv, *this, power, i as int), !tvebad(*this, power, i as int)
@dec this.num_elements - i
@top assert(mok2(this.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator*=(const spffl::intmath::intmod_t &)
@requires tvst(*old(this)), old(this).num_elements >= 1, tvok(*old(this)), mok(*e)
@throws tvmixs(*old(this), *e, old(this).num_elements as int)
@onerr tvst(*final(this)), final(this).num_elements == old(this).num_elements
@ensures tvst(*final(this)), final(this).num_elements == old(this).num_elements, tvmuls(*final(this), *old(this), *e, old(this).num_elements as int), tvst(ret), tvsame(ret, *final(this))
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.elements.st is Live, this.elements.v@.len() == old(this).elements.v@.len(), this.num_elements == old(this).num_elements, tvst(*old(this)), forall|k: int| i <= k < old(this).elements.v@.len() ==> #[trigger] this.elements.v@[k] == old(this).elements.v@[k], mok(*e), true, tvmuls(*this, *old(this), *e, i as int), !tvmixs(*old(this), *e, i as int), tvok(*old(this))
@dec this.num_elements - i
@top assert(mok(old(this).elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::mult_by(const spffl::intmath::intmod_t &)
@requires tvst(*old(this)), old(this).num_elements >= 1, tvok(*old(this)), mok(*e)
@throws tvmixs(*old(this), *e, old(this).num_elements as int)
@onerr tvst(*final(this)), final(this).num_elements == old(this).num_elements
@ensures tvst(*final(this)), final(this).num_elements == old(this).num_elements, tvmuls(*final(this), *old(this), *e, old(this).num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.elements.st is Live, this.elements.v@.len() == old(this).elements.v@.len(), this.num_elements == old(this).num_elements, tvst(*old(this)), forall|k: int| i <= k < old(this).elements.v@.len() ==> #[trigger] this.elements.v@[k] == old(this).elements.v@[k], mok(*e), true, tvmuls(*this, *old(this), *e, i as int), !tvmixs(*old(this), *e, i as int), tvok(*old(this))
@dec this.num_elements - i
@top assert(mok(old(this).elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator*=(const tvector<intmod_t> &)
@requires tvst(*old(this)), old(this).num_elements >= 1, tvok(*old(this)), tvst(*that), tvok(*that)
@throws old(this).num_elements != that.num_elements || tvmix(*old(this), *that, old(this).num_elements as int)
@onerr tvst(*final(this)), final(this).num_elements == old(this).num_elements
@ensures tvst(*final(this)), final(this).num_elements == old(this).num_elements, tvmul(*final(this), *old(this), *that, old(this).num_elements as int), tvst(ret), tvsame(ret, *final(this))
@entry
let ghost b = *that;
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.elements.st is Live, this.elements.v@.len() == old(this).elements.v@.len(), this.num_elements == old(this).num_elements, tvst(*old(this)), forall|k: int| i <= k < old(this).elements.v@.len() ==> #[trigger] this.elements.v@[k] == old(this).elements.v@[k], tvst(*that), tvst(b), tvok(b), this.num_elements == that.num_elements, b.num_elements == that.num_elements, forall|k: int| i <= k < that.num_elements ==> #[trigger] that.elements.v@[k] == b.elements.v@[k], tvmul(*this, *old(this), b, i as int), !tvmix(*old(this), b, i as int), tvok(*old(this))
@dec this.num_elements - i
@top assert(mok(old(this).elements.v@[i as int])); assert(mok(b.elements.v@[i as int])); assert(that.elements.v@[i as int] == b.elements.v@[i as int]);
@fn inst::tvector<spffl::intmath::intmod_t>::operator/=(const spffl::intmath::intmod_t &)
@requires tvst(*old(this)), old(this).num_elements >= 1, tvok2(*old(this)), mok2(*e)
@throws tvdbads(*old(this), *e, old(this).num_elements as int)
@onerr tvst(*final(this)), final(this).num_elements == old(this).num_elements
@ensures tvst(*final(this)), final(this).num_elements == old(this).num_elements, tvdivs(*final(this), *old(this), *e, old(this).num_elements as int), tvst(ret), tvsame(ret, *final(this))
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), this.elements.st is Live, this.elements.v@.len() == old(this).elements.v@.len(), this.num_elements == old(this).num_elements, tvst(*old(this)), forall|k: int| i <= k < old(this).elements.v@.len() ==> #[trigger] this.elements.v@[k] == old(this).elements.v@[k], mok2(*e), true, tvdivs(*this, *old(this), *e, i as int), !tvdbads(*old(this), *e, i as int), tvok2(*old(this))
@dec this.num_elements - i
@top assert(mok2(old(this).elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator+=(const tvector<intmod_t> &)
@requires tvst(*old(this)), old(this).num_elements >= 1, tvok(*old(this)), tvst(*that), tvok(*that)
@throws old(this).num_elements != that.num_elements || tvmix(*old(this), *that, old(this).num_elements as int)
@onerr *final(this) == *old(this)
@ensures tvst(*final(this)), final(this).num_elements == old(this).num_elements, tvadd(*final(this), *old(this), *that, old(this).num_elements as int), tvst(ret), tvsame(ret, *final(this))
@fn inst::tvector<spffl::intmath::intmod_t>::operator-=(const tvector<intmod_t> &)
@requires tvst(*old(this)), old(this).num_elements >= 1, tvok(*old(this)), tvst(*that), tvok(*that)
@throws old(this).num_elements != that.num_elements || tvmix(*old(this), *that, old(this).num_elements as int)
@onerr *final(this) == *old(this)
@ensures tvst(*final(this)), final(this).num_elements == old(this).num_elements, tvsub(*final(this), *old(this), *that, old(this).num_elements as int), tvst(ret), tvsame(ret, *final(this))
@fn inst::tvector<spffl::intmath::intmod_t>::dot(const tvector<intmod_t> &)
@requires tvst(*old(this)), old(this).num_elements >= 1, tvok(*old(this)), tvst(*that), tvok(*that)
@throws old(this).num_elements != that.num_elements || old(this).elements.v@[0].modulus == 0 || tvdotbad(*old(this), *that, old(this).num_elements as int)
@onerr *final(this) == *old(this)
@ensures *final(this) == *old(this), mset(ret), ret.modulus == old(this).elements.v@[0].modulus, ret.residue as int == dots(*old(this), *that, old(this).num_elements as int) % old(this).elements.v@[0].modulus as int
@loop 0
@inv 0 <= i <= this.num_elements, *this == *old(this), tvst(*this), tvst(*that), this.num_elements == that.num_elements, this.num_elements >= 1, tvok(*this), tvok(*that), mset(rv), rv.modulus == old(this).elements.v@[0].modulus, rv.residue as int == dots(*old(this), *that, i as int) % rv.modulus as int, !tvdotbad(*old(this), *that, i as int)
@dec this.num_elements - i
@top assert(mok(this.elements.v@[i as int])); assert(mok(that.elements.v@[i as int])); lemma_dots(*this, *that, i as int, rv);
@before assert(mok(this.elements.v@[0])); lemma_small_mod(0, rv.modulus as nat);
@fn inst::tvector<spffl::intmath::intmod_t>::accum_row_mul(spffl::intmath::intmod_t, spffl::intmath::intmod_t, tvector<intmod_t> &)
@requires tvst(*old(this)), tvst(*old(that)), tvok(*old(this)), tvok(*old(that)), mok(a), mok(b), old(this).num_elements >= 1
@throws old(this).num_elements != old(that).num_elements || tvaccbad(*old(this), *old(that), a, b, old(this).num_elements as int)
@onerr tvst(*final(this)), final(this).num_elements == old(this).num_elements, *final(that) == *old(that)
@ensures *final(that) == *old(that), tvst(*final(this)), final(this).num_elements == old(this).num_elements, tvacc(*final(this), *old(this), *old(that), a, b, old(this).num_elements as int)
@loop 0
@inv 0 <= i <= this.num_elements, mok(a), mok(b), tvst(*this), this.elements.st is Live, this.elements.v@.len() == old(this).elements.v@.len(), this.num_elements == old(this).num_elements, tvst(*old(this)), forall|k: int| i <= k < old(this).elements.v@.len() ==> #[trigger] this.elements.v@[k] == old(this).elements.v@[k], tvst(*that), *that == *old(that), this.num_elements == that.num_elements, tvok(*old(this)), tvok(*that), tvacc(*this, *old(this), *that, a, b, i as int), !tvaccbad(*old(this), *that, a, b, i as int)
@dec this.num_elements - i
@top assert(mok(old(this).elements.v@[i as int])); assert(mok(that.elements.v@[i as int])); lemma_accstep(old(this).elements.v@[i as int], that.elements.v@[i as int], a, b);
@fn inst::tvector<spffl::intmath::intmod_t>::operator==(const tvector<intmod_t> &) const
@requires tvst(*this), tvst(*that), tvset(*this), tvset(*that)
@ensures ret == (this.num_elements == that.num_elements && sameto(*this, *that, this.num_elements as int))
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), tvset(*this), tvst(*that), tvset(*that), this.num_elements == that.num_elements, sameto(*this, *that, i as int)
@dec this.num_elements - i
@top assert(mset(this.elements.v@[i as int])); assert(mset(that.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator==(const spffl::intmath::intmod_t &) const
@requires tvst(*this), tvset(*this), mset(*e)
@ensures ret == tvall(*this, *e)
@loop 0
@inv 0 <= i <= this.num_elements, tvst(*this), tvset(*this), mset(*e), forall|k: int| 0 <= k < i ==> #[trigger] this.elements.v@[k] == *e
@dec this.num_elements - i
@top assert(mset(this.elements.v@[i as int]));
@fn inst::tvector<spffl::intmath::intmod_t>::operator!=(const tvector<intmod_t> &) const
@requires tvst(*this), tvst(*that), tvset(*this), tvset(*that)
@ensures ret == !(this.num_elements == that.num_elements && sameto(*this, *that, this.num_elements as int))
@fn inst::tvector<spffl::intmath::intmod_t>::operator!=(const spffl::intmath::intmod_t &) const
@requires tvst(*this), tvset(*this), mset(*e)
@ensures ret == !tvall(*this, *e)
@fn inst::tvector<spffl::intmath::intmod_t>::find_leader_pos(const spffl::intmath::intmod_t &, int &) const
@requires tvst(*this), tvset(*this), mset(*rzero)
@ensures ret == !tvall(*this, *rzero), ret ==> 0 <= *final(rpos) < this.num_elements && this.elements.v@[*final(rpos) as int] != *rzero && forall|k: int| 0 <= k < *final(rpos) ==> #[trigger] this.elements.v@[k] == *rzero, !ret ==> *final(rpos) == *old(rpos)
@loop 0
@inv 0 <= j <= this.num_elements, *rpos == *old(rpos), tvst(*this), tvset(*this), mset(*rzero), forall|k: int| 0 <= k < j ==> #[trigger] this.elements.v@[k] == *rzero
@dec this.num_elements - j
@top assert(mset(this.elements.v@[j as int]));
