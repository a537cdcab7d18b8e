# ---- C16: packed bit vectors
@fn bits::bit_t::bit_t(int)
@ensures ret.residue as int == (arg_residue as int) % 2
@exit lemma_and1(arg_residue);

@fn bits::bit_t::bit_t(const bit_t &)
@ensures ret.residue == that.residue

@fn bits::bit_t::bit_t()
@ensures ret.residue == 0

@fn bits::bit_vector_t::bit_vector_t()
@ensures bvok(ret), ret.num_bits == 0, ret.words.st is Null

@fn bits::bit_vector_t::bit_vector_t(int)
@requires init_num_elements <= bvmax()
@throws init_num_elements <= 0
@ensures bvok(ret), ret.num_bits == init_num_elements, bvzero(ret), ret.words.st is Live
@exit lemma_nw(init_num_elements as int); lemma_nwbits(init_num_elements); lemma_words_zero(ret, ret.num_words as int);

@fn bits::bit_vector_t::bit_vector_t(const bit_t &, int)
@requires init_num_elements <= bvmax()
@throws init_num_elements <= 0
@ensures bvok(ret), ret.num_bits == init_num_elements, ret.words.st is Live, forall|i: int| 0 <= i < ret.num_bits ==> #[trigger] bv(ret, i) == (scalar.residue == 1)
@entry lemma_nwbits(init_num_elements);
@loop 0
@inv 0 <= i <= this.num_words, this.words.v@.len() == this.num_words, this.words.st is Live, this.num_words == nw(init_num_elements as int), this.num_bits == init_num_elements,
  fill == (if scalar.residue == 1 { !0u64 } else { 0u64 }), forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == fill
@dec this.num_words - i
@beforecall trim 0 lemma_nw(init_num_elements as int); lemma_words_fill(this, this.num_words as int, fill, scalar.residue == 1);

@fn bits::bit_vector_t::bit_vector_t(int, int)
@requires init_num_elements <= bvmax(), scalar == 0 || scalar == 1
@throws init_num_elements <= 0
@ensures bvok(ret), ret.num_bits == init_num_elements, ret.words.st is Live, forall|i: int| 0 <= i < ret.num_bits ==> #[trigger] bv(ret, i) == (scalar == 1)
@entry lemma_nwbits(init_num_elements);
@loop 0
@inv 0 <= i <= this.num_words, this.words.v@.len() == this.num_words, this.words.st is Live, this.num_words == nw(init_num_elements as int), this.num_bits == init_num_elements,
  fill == (if scalar == 1 { !0u64 } else { 0u64 }), forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == fill
@dec this.num_words - i
@beforecall trim 0 lemma_nw(init_num_elements as int); lemma_words_fill(this, this.num_words as int, fill, scalar == 1);

@fn bits::bit_vector_t::bit_vector_t(const bit_vector_t &)
@requires bvok(*that)
@ensures bvok(ret), bvsame(ret, *that), ret.words.st is Live
@exit lemma_nw(that.num_bits as int); lemma_pad_copy(ret, *that);

@fn bits::bit_vector_t::operator=(const bit_vector_t &)
@requires bvok(*old(this)), bvok(*that)
@ensures bvok(*final(this)), bvsame(*final(this), *that)
@exit lemma_nw(that.num_bits as int); lemma_pad_copy(*this, *that);

@fn bits::bit_vector_t::operator=(const bit_t &)
@requires bvok(*old(this)), scalar.residue <= 1
@ensures bvok(*final(this)), final(this).num_bits == (if old(this).words.st is Null { 1int } else { old(this).num_bits as int }),
  forall|i: int| 0 <= i < final(this).num_bits ==> #[trigger] bv(*final(this), i) == (scalar.residue == 1)
@loop 0
@inv 0 <= i <= this.num_words, this.words.v@.len() == old(this).words.v@.len(), this.words.st == old(this).words.st, this.num_words == old(this).num_words, this.num_bits == old(this).num_bits,
  fill == (if scalar.residue == 1 { !0u64 } else { 0u64 }), forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == fill
@dec this.num_words - i
@beforecall trim 0 lemma_nw(this.num_bits as int); lemma_words_fill(*this, this.num_words as int, fill, scalar.residue == 1);
@beforecall trim 1 lemma_onebit(0, 0, 0); lemma_wordops(0, 0, 0); assert(vb(this.words.v@, 0) == bitw(this.words.v@[0], 0)); lemma_top1x();

@fn bits::bit_vector_t::toggle_element(int)
@requires bvok(*old(this))
@throws index < 0 || index >= old(this).num_bits
@ensures bvok(*final(this)), final(this).num_bits == old(this).num_bits, bv(*final(this), index as int) == !bv(*old(this), index as int),
  forall|i: int| 0 <= i < final(this).num_bits && i != index ==> #[trigger] bv(*final(this), i) == bv(*old(this), i)
@entry if 0 <= index < this.num_bits { lemma_nw(this.num_bits as int); lemma_bitpos(index as u64); lemma_widx(index as int, this.num_words as int); }
@exit lemma_bit_update(*old(this), *this, index as int, 2);

@fn bits::bit_vector_t::get(int) const
@requires bvok(*this)
@throws index < 0 || index >= this.num_bits
@ensures ret.residue as int == bval(bv(*this, index as int))
@entry if 0 <= index < this.num_bits { lemma_nw(this.num_bits as int); lemma_bitpos(index as u64); lemma_widx(index as int, this.num_words as int); lemma_getbit(this.words.v@[index as int / 64], index as int % 64); }

@fn bits::bit_vector_t::get_int(int) const
@requires bvok(*this)
@throws index < 0 || index >= this.num_bits
@ensures ret as int == bval(bv(*this, index as int))
@entry if 0 <= index < this.num_bits { lemma_nw(this.num_bits as int); lemma_bitpos(index as u64); lemma_widx(index as int, this.num_words as int); lemma_getbit(this.words.v@[index as int / 64], index as int % 64); }

@fn bits::bit_vector_t::get_bit(int)
@requires bvok(*old(this)), 0 <= index < old(this).num_bits
@ensures ret as int == bval(bv(*old(this), index as int)), *final(this) == *old(this)
@entry lemma_nw(this.num_bits as int); lemma_bitpos(index as u64); lemma_widx(index as int, this.num_words as int); lemma_getbit(this.words.v@[index as int / 64], index as int % 64);

@fn bits::bit_vector_t::set(int, const bit_t &)
@requires bvok(*old(this)), value.residue <= 1
@throws index < 0 || index >= old(this).num_bits
@ensures bvok(*final(this)), final(this).num_bits == old(this).num_bits, bv(*final(this), index as int) == (value.residue == 1),
  forall|i: int| 0 <= i < final(this).num_bits && i != index ==> #[trigger] bv(*final(this), i) == bv(*old(this), i)
@entry if 0 <= index < this.num_bits { lemma_nw(this.num_bits as int); lemma_bitpos(index as u64); lemma_widx(index as int, this.num_words as int); }
@exit lemma_bit_update(*old(this), *this, index as int, value.residue as int);

@fn bits::bit_vector_t::set(int, int)
@requires bvok(*old(this))
@throws index < 0 || index >= old(this).num_bits
@ensures bvok(*final(this)), final(this).num_bits == old(this).num_bits, bv(*final(this), index as int) == (value as int % 2 == 1),
  forall|i: int| 0 <= i < final(this).num_bits && i != index ==> #[trigger] bv(*final(this), i) == bv(*old(this), i)
@entry if 0 <= index < this.num_bits { lemma_nw(this.num_bits as int); lemma_bitpos(index as u64); lemma_widx(index as int, this.num_words as int); } lemma_and1(value);
@exit lemma_bit_update(*old(this), *this, index as int, value as int % 2);

@fn bits::bit_vector_t::is_zero() const
@requires bvok(*this)
@ensures ret == bvzero(*this)
@entry lemma_nw(this.num_bits as int);
@loop 0
@inv 0 <= i <= this.num_words, forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == 0
@dec this.num_words - i
@exit if ret { lemma_words_zero(*this, this.num_words as int); } else { lemma_nonzero_word(*this); }

@fn bits::bit_vector_t::operator+(const bit_vector_t &)
@requires bvok(*old(this)), bvok(*that), old(this).num_bits > 0
@throws old(this).num_bits != that.num_bits
@onerr *final(this) == *old(this)
@ensures *final(this) == *old(this), bvok(ret), ret.num_bits == old(this).num_bits, forall|i: int| 0 <= i < ret.num_bits ==> #[trigger] bv(ret, i) == (bv(*old(this), i) != bv(*that, i))
@loop 0
@inv 0 <= i <= this.num_words, bvok(*that), this.num_bits == that.num_bits, rv.num_bits == this.num_bits, rv.num_words == this.num_words, rv.words.st is Live, rv.words.v@.len() >= rv.num_words,
  forall|j: int| 0 <= j < i ==> #[trigger] rv.words.v@[j] == this.words.v@[j] ^ that.words.v@[j]
@dec this.num_words - i
@exit lemma_pad_xor(ret, *this, *that);

@fn bits::bit_vector_t::operator-(const bit_vector_t &)
@requires bvok(*old(this)), bvok(*that), old(this).num_bits > 0
@throws old(this).num_bits != that.num_bits
@onerr *final(this) == *old(this)
@ensures *final(this) == *old(this), bvok(ret), ret.num_bits == old(this).num_bits, forall|i: int| 0 <= i < ret.num_bits ==> #[trigger] bv(ret, i) == (bv(*old(this), i) != bv(*that, i))
@loop 0
@inv 0 <= i <= this.num_words, bvok(*that), this.num_bits == that.num_bits, rv.num_bits == this.num_bits, rv.num_words == this.num_words, rv.words.st is Live, rv.words.v@.len() >= rv.num_words,
  forall|j: int| 0 <= j < i ==> #[trigger] rv.words.v@[j] == this.words.v@[j] ^ that.words.v@[j]
@dec this.num_words - i
@exit lemma_pad_xor(ret, *this, *that);

@fn bits::bit_vector_t::operator*(const bit_t &)
@requires bvok(*old(this)), s.residue <= 1
@ensures *final(this) == *old(this), bvok(ret), ret.num_bits == old(this).num_bits, forall|i: int| 0 <= i < ret.num_bits ==> #[trigger] bv(ret, i) == (bv(*old(this), i) && s.residue == 1)
@exit lemma_nw(this.num_bits as int); if s.residue == 0 { lemma_words_zero(ret, ret.num_words as int); }

@fn bits::bit_vector_t::operator*(const bit_vector_t &)
@requires bvok(*old(this)), bvok(*that), old(this).num_bits > 0
@throws old(this).num_bits != that.num_bits
@onerr *final(this) == *old(this)
@ensures *final(this) == *old(this), bvok(ret), ret.num_bits == old(this).num_bits, forall|i: int| 0 <= i < ret.num_bits ==> #[trigger] bv(ret, i) == (bv(*old(this), i) && bv(*that, i))
@loop 0
@inv 0 <= i <= this.num_words, bvok(*that), this.num_bits == that.num_bits, rv.num_bits == this.num_bits, rv.num_words == this.num_words, rv.words.st is Live, rv.words.v@.len() >= rv.num_words,
  forall|j: int| 0 <= j < i ==> #[trigger] rv.words.v@[j] == this.words.v@[j] & that.words.v@[j]
@dec this.num_words - i
@exit lemma_pad_and(ret, *this, *that);

@fn bits::bit_vector_t::dot(const bit_vector_t &)
@requires bvok(*old(this)), bvok(*that)
@throws old(this).num_bits != that.num_bits
@ensures *final(this) == *old(this), ret.residue as int == bval(dotp(*old(this), *that, old(this).num_bits as int))
@loop 0
@inv 0 <= i <= this.num_words, this.num_bits == that.num_bits, *this == *old(this), accum == wdot(this.words.v@, that.words.v@, i as int)
@dec this.num_words - i
@beforecall count_one_bits 0 lemma_nw(this.num_bits as int); lemma_wdot(*this, *that, this.num_words as int); lemma_dot_pad(*this, *that, 64 * this.num_words);
@aftercall count_one_bits 0 lemma_parity_all(accum, $ret as int); lemma_and1($ret);

@fn bits::bit_vector_t::operator+=(const bit_vector_t &)
@requires bvok(*old(this)), bvok(*that)
@throws old(this).num_bits != that.num_bits
@ensures bvok(*final(this)), final(this).num_bits == old(this).num_bits, forall|i: int| 0 <= i < final(this).num_bits ==> #[trigger] bv(*final(this), i) == (bv(*old(this), i) != bv(*that, i)), bvok(ret), bvsame(ret, *final(this))
@loop 0
@inv 0 <= i <= this.num_words, this.words.st == old(this).words.st, this.words.v@.len() == old(this).words.v@.len(), this.num_bits == old(this).num_bits, this.num_words == old(this).num_words, this.num_bits == that.num_bits, 
  forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == old(this).words.v@[j] ^ that.words.v@[j], forall|j: int| i <= j < this.words.v@.len() ==> #[trigger] this.words.v@[j] == old(this).words.v@[j]
@dec this.num_words - i
@after lemma_pad_xor(*this, *old(this), *that);

@fn bits::bit_vector_t::operator-=(const bit_vector_t &)
@requires bvok(*old(this)), bvok(*that)
@throws old(this).num_bits != that.num_bits
@ensures bvok(*final(this)), final(this).num_bits == old(this).num_bits, forall|i: int| 0 <= i < final(this).num_bits ==> #[trigger] bv(*final(this), i) == (bv(*old(this), i) != bv(*that, i)), bvok(ret), bvsame(ret, *final(this))
@loop 0
@inv 0 <= i <= this.num_words, this.words.st == old(this).words.st, this.words.v@.len() == old(this).words.v@.len(), this.num_bits == old(this).num_bits, this.num_words == old(this).num_words, this.num_bits == that.num_bits, 
  forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == old(this).words.v@[j] ^ that.words.v@[j], forall|j: int| i <= j < this.words.v@.len() ==> #[trigger] this.words.v@[j] == old(this).words.v@[j]
@dec this.num_words - i
@after lemma_pad_xor(*this, *old(this), *that);

@fn bits::bit_vector_t::operator*=(bit_t)
@requires bvok(*old(this)), scalar.residue <= 1
@ensures bvok(*final(this)), final(this).num_bits == old(this).num_bits, forall|i: int| 0 <= i < final(this).num_bits ==> #[trigger] bv(*final(this), i) == (bv(*old(this), i) && scalar.residue == 1), bvok(ret), bvsame(ret, *final(this))
@loop 0
@inv 0 <= i <= this.num_words, this.words.st == old(this).words.st, this.words.v@.len() == old(this).words.v@.len(), this.num_bits == old(this).num_bits, this.num_words == old(this).num_words,
  forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == 0
@dec this.num_words - i
@after lemma_nw(this.num_bits as int); lemma_words_zero(*this, this.num_words as int);

@fn bits::bit_vector_t::operator*=(const bit_vector_t &)
@requires bvok(*old(this)), bvok(*that)
@throws old(this).num_bits != that.num_bits
@ensures bvok(*final(this)), final(this).num_bits == old(this).num_bits, forall|i: int| 0 <= i < final(this).num_bits ==> #[trigger] bv(*final(this), i) == (bv(*old(this), i) && bv(*that, i)), bvok(ret), bvsame(ret, *final(this))
@loop 0
@inv 0 <= i <= this.num_words, this.words.st == old(this).words.st, this.words.v@.len() == old(this).words.v@.len(), this.num_bits == old(this).num_bits, this.num_words == old(this).num_words, this.num_bits == that.num_bits, 
  forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == old(this).words.v@[j] & that.words.v@[j], forall|j: int| i <= j < this.words.v@.len() ==> #[trigger] this.words.v@[j] == old(this).words.v@[j]
@dec this.num_words - i
@after lemma_pad_and(*this, *old(this), *that);

@fn bits::bit_vector_t::operator==(const bit_vector_t &) const
@requires bvok(*this), bvok(*that)
@ensures ret == bvsame(*this, *that)
@entry lemma_nw(this.num_bits as int);
@loop 0
@inv 0 <= i <= this.num_words, this.num_bits == that.num_bits, forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == that.words.v@[j]
@dec this.num_words - i
@exit if this.num_bits == that.num_bits { if ret { lemma_words_bits(*this, *that, this.num_words as int); } else if bvsame(*this, *that) { lemma_eq_words(*this, *that); } }

@fn bits::bit_vector_t::operator!=(const bit_vector_t &) const
@requires bvok(*this), bvok(*that)
@ensures ret == !bvsame(*this, *that)

@fn bits::bit_vector_t::operator==(const bit_t &) const
@requires bvok(*this), scalar.residue <= 1
@ensures ret == (forall|i: int| 0 <= i < this.num_bits ==> #[trigger] bv(*this, i) == (scalar.residue == 1))
@entry lemma_nw(this.num_bits as int);
@loop 0
@inv 0 <= i <= this.num_bits, forall|j: int| 0 <= j < i ==> #[trigger] bv(*this, j) == (scalar.residue == 1)
@dec this.num_bits - i
@top lemma_bitpos(i as u64); lemma_widx(i as int, this.num_words as int); lemma_getbit(this.words.v@[i as int / 64], i as int % 64); assert(bv(*this, i as int) == bitw(this.words.v@[i as int / 64], i as int % 64));

@fn bits::bit_vector_t::operator!=(const bit_t &) const
@requires bvok(*this), scalar.residue <= 1
@ensures ret == !(forall|i: int| 0 <= i < this.num_bits ==> #[trigger] bv(*this, i) == (scalar.residue == 1))

@fn bits::bit_vector_t::find_leader_pos(int &)
@requires bvok(*old(this))
@ensures *final(this) == *old(this), ret == !bvzero(*old(this)), ret ==> 0 <= *final(rpos) < old(this).num_bits && bv(*old(this), *final(rpos) as int) && forall|i: int| 0 <= i < *final(rpos) ==> !#[trigger] bv(*old(this), i), !ret ==> *final(rpos) == *old(rpos)
@entry lemma_nw(this.num_bits as int); lemma_p2_all();
@loop 0
@inv 0 <= i <= this.num_words, *this == *old(this), *rpos == *old(rpos), forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == 0
@dec this.num_words - i
@aftercall find_msb_64 0 lemma_leader(*this, i as int, $ret as int); lemma_i32_shl6(i);
@exit if ret { } else { lemma_words_zero(*this, this.num_words as int); }

@fn bits::bit_vector_t::ptrswap(bit_vector_t &)
@requires bvok(*old(this)), bvok(*old(that))
@throws old(this).num_bits != old(that).num_bits
@ensures bvok(*final(this)), bvok(*final(that)), bvsame(*final(this), *old(that)), bvsame(*final(that), *old(this))
@exit assert forall|i: int| this.num_bits <= i < 64 * this.num_words implies !#[trigger] bv(*this, i) by { assert(!bv(*old(that), i)); } assert forall|i: int| that.num_bits <= i < 64 * that.num_words implies !#[trigger] bv(*that, i) by { assert(!bv(*old(this), i)); }

@fn bits::bit_vector_t::trim()
@requires 0 <= old(this).num_bits <= bvmax(), old(this).num_words == nw(old(this).num_bits as int), old(this).words.v@.len() >= old(this).num_words, old(this).num_bits > 0 ==> old(this).words.st is Live, !(old(this).words.st is Dead)
@ensures bvok(*final(this)), final(this).words.st == old(this).words.st, final(this).num_bits == old(this).num_bits, forall|i: int| 0 <= i < final(this).num_bits ==> #[trigger] bv(*final(this), i) == bv(*old(this), i)
@entry lemma_nw(this.num_bits as int); lemma_i32_shl6(this.num_words);
@exit lemma_trim(*old(this), *this, (64 * this.num_words - this.num_bits) as u64);

@fn bits::bit_vector_t::accum_row(bit_vector_t &)
@requires bvok(*old(this)), bvok(*old(that))
@throws old(this).num_bits != old(that).num_bits
@ensures bvok(*final(this)), *final(that) == *old(that), final(this).num_bits == old(this).num_bits, forall|i: int| 0 <= i < final(this).num_bits ==> #[trigger] bv(*final(this), i) == (bv(*old(this), i) != bv(*old(that), i))
@loop 0
@inv 0 <= i <= this.num_words, *that == *old(that), this.words.st == old(this).words.st, this.words.v@.len() == old(this).words.v@.len(), this.num_bits == old(this).num_bits, this.num_words == old(this).num_words, this.num_bits == that.num_bits, 
  forall|j: int| 0 <= j < i ==> #[trigger] this.words.v@[j] == old(this).words.v@[j] ^ that.words.v@[j], forall|j: int| i <= j < this.words.v@.len() ==> #[trigger] this.words.v@[j] == old(this).words.v@[j]
@dec this.num_words - i
@after lemma_pad_xor(*this, *old(this), *that);

@fn bits::bit_vector_t::get_num_elements() const
@ensures ret == this.num_bits
