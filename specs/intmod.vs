# Contracts for spffl/intmath/intmod_t.  mok: unset modulus (0), or a canonical residue of a modulus >= 1.
@fn intmath::intmod_t::intmod_t(int, int)
@throws arg_modulus <= 0
@ensures arg_modulus >= 1 ==> (mok(ret) && ret.modulus == arg_modulus && ret.residue as int == arg_residue as int % arg_modulus as int)
@exit if arg_modulus >= 1 { lemma_trem_pos(arg_residue as int, arg_modulus as int); lemma_mod_bound(arg_residue as int, arg_modulus as int); }
@fn intmath::intmod_t::intmod_t()
@ensures ret.modulus == 0, ret.residue == -1
@fn intmath::intmod_t::intmod_t(const intmod_t &)
@ensures ret == *that
@fn intmath::intmod_t::operator=(const intmod_t &)
@ensures *final(this) == *that

@fn intmath::intmod_t::check_modulus() const
@throws this.modulus == 0
@fn intmath::intmod_t::check_moduli(const intmod_t &) const
@throws this.modulus == 0 || that.modulus == 0 || this.modulus != that.modulus
@fn intmath::intmod_t::get_residue() const
@ensures ret == this.residue
@fn intmath::intmod_t::get_modulus() const
@ensures ret == this.modulus
@fn intmath::intmod_t::prime_subfield_element(int) const
@requires mok(*this)
@throws this.modulus == 0
@ensures mset(ret), ret.modulus == this.modulus, ret.residue as int == v as int % this.modulus as int

@fn intmath::intmod_t::operator+(const intmod_t &) const
@requires mok(*this), mok(*that)
@throws mmix(*this, *that)
@ensures mset(ret), ret.modulus == this.modulus, ret.residue as int == (this.residue as int + that.residue as int) % this.modulus as int
@entry
  if mset(*this) { lemma_trem_pos(this.residue as int + that.residue as int, this.modulus as int); lemma_mulmod(this.residue as int + that.residue as int, 1, this.modulus as int); }
@fn intmath::intmod_t::operator-(const intmod_t &) const
@requires mok(*this), mok(*that)
@throws mmix(*this, *that)
@ensures mset(ret), ret.modulus == this.modulus, ret.residue as int == (this.residue as int - that.residue as int) % this.modulus as int
@entry
  if mset(*this) { lemma_trem_pos(this.residue as int - that.residue as int, this.modulus as int); lemma_mulmod(this.residue as int - that.residue as int, 1, this.modulus as int); lemma_trem_mod2(this.residue as int - that.residue as int, this.modulus as int); }
@fn intmath::intmod_t::operator-() const
@requires mok(*this)
@throws this.modulus == 0
@ensures mset(ret), ret.modulus == this.modulus, ret.residue as int == (-(this.residue as int)) % this.modulus as int
@entry
  if mset(*this) { lemma_mod_add_multiples_vanish(-(this.residue as int), this.modulus as int); }
@fn intmath::intmod_t::operator*(const intmod_t &) const
@requires mok(*this), mok(*that)
@throws mmix(*this, *that)
@ensures mset(ret), ret.modulus == this.modulus, ret.residue as int == (this.residue as int * that.residue as int) % this.modulus as int
@entry
  lemma_mul_i32(this.residue as int, that.residue as int);
  if mset(*this) && mset(*that) { lemma_mul_nonneg(this.residue as int, that.residue as int); lemma_trem_pos(this.residue as int * that.residue as int, this.modulus as int); lemma_trem_mod2(this.residue as int * that.residue as int, this.modulus as int); }
@fn intmath::intmod_t::operator+(int) const
@requires mok(*this)
@throws this.modulus == 0
@ensures mset(ret), ret.modulus == this.modulus, ret.residue as int == (this.residue as int + a as int) % this.modulus as int
@entry
  if mset(*this) { lemma_trem_pos(this.residue as int + a as int, this.modulus as int); lemma_trem_mod2(this.residue as int + a as int, this.modulus as int); }
@fn intmath::intmod_t::operator-(int) const
@requires mok(*this)
@throws this.modulus == 0
@ensures mset(ret), ret.modulus == this.modulus, ret.residue as int == (this.residue as int - a as int) % this.modulus as int
@entry
  if mset(*this) { lemma_trem_pos(this.residue as int - a as int, this.modulus as int); lemma_trem_mod2(this.residue as int - a as int, this.modulus as int); }
@fn intmath::intmod_t::operator*(int) const
@requires mok(*this)
@throws this.modulus == 0
@ensures mset(ret), ret.modulus == this.modulus, ret.residue as int == (this.residue as int * a as int) % this.modulus as int
@entry
  lemma_mul_i32(this.residue as int, a as int);
  if mset(*this) { lemma_trem_pos(this.residue as int * a as int, this.modulus as int); lemma_trem_mod2(this.residue as int * a as int, this.modulus as int); }

@fn intmath::intmod_t::operator==(const intmod_t &) const
@throws this.modulus == 0 || that.modulus == 0
@ensures ret == (this.residue == that.residue && this.modulus == that.modulus)
@fn intmath::intmod_t::operator!=(const intmod_t &) const
@throws this.modulus == 0 || that.modulus == 0
@ensures ret == !(this.residue == that.residue && this.modulus == that.modulus)
@fn intmath::intmod_t::operator==(int) const
@throws this.modulus == 0
@ensures ret == (this.residue == that)
@fn intmath::intmod_t::operator!=(int) const
@throws this.modulus == 0
@ensures ret == (this.residue != that)
@fn intmath::intmod_t::operator<(const intmod_t &) const
@throws mmix(*this, *that)
@ensures ret == (this.residue < that.residue)
@fn intmath::intmod_t::operator<=(const intmod_t &) const
@throws mmix(*this, *that)
@ensures ret == (this.residue <= that.residue)
@fn intmath::intmod_t::operator>(const intmod_t &) const
@throws mmix(*this, *that)
@ensures ret == (this.residue > that.residue)
@fn intmath::intmod_t::operator>=(const intmod_t &) const
@throws mmix(*this, *that)
@ensures ret == (this.residue >= that.residue)

@fn intmath::intmod_t::recip(intmod_t &) const
@requires mok2(*this)
@throws this.modulus == 0
@decreases 1int
@binds mlast phi
@static mlast >= 2, phi as int == totient(mlast as int)
@ensures
  ret == coprime(this.modulus as int, this.residue as int),
  ret ==> (mset(*final(rinv)) && final(rinv).modulus == this.modulus && is_inv(this.residue as int, final(rinv).residue as int, this.modulus as int)),
  !ret ==> *final(rinv) == *old(rinv),
@entry
  lemma_totient2();
  if mset(*this) {
    lemma_recip_two(this.residue as int);
    lemma_mulmod(this.residue as int, 0, this.modulus as int);
    if coprime(this.modulus as int, this.residue as int) { lemma_euler_inv(this.residue as int, this.modulus as int); }
    lemma_cop_bound(this.modulus as int, this.modulus as int); lemma_totient_pos(this.modulus as int);
  }
@aftercall exp 0
  lemma_mul_i32(this.residue as int, $ret.residue as int); lemma_mul_nonneg(this.residue as int, $ret.residue as int);
  lemma_trem_pos(this.residue as int * $ret.residue as int, this.modulus as int);
  if is_inv(this.residue as int, $ret.residue as int, this.modulus as int) { lemma_inv_unit(this.residue as int, $ret.residue as int, this.modulus as int); }

@fn intmath::intmod_t::operator/(const intmod_t &) const
@requires mok2(*this), mok2(*that)
@throws mmix(*this, *that) || !coprime(that.modulus as int, that.residue as int)
@decreases 2int
@ensures mset(ret), ret.modulus == this.modulus, mquot(ret.residue as int, this.residue as int, that.residue as int, this.modulus as int)
@exit
  if mset(*this) && mset(*that) && this.modulus == that.modulus && coprime(that.modulus as int, that.residue as int) {
    lemma_quot(this.residue as int, that.residue as int, bi.residue as int, this.modulus as int);
  }
@fn intmath::intmod_t::operator%(const intmod_t &) const
@requires mok2(*this), mok2(*that)
@throws mmix(*this, *that) || !coprime(that.modulus as int, that.residue as int)
@ensures mset(ret), ret.modulus == this.modulus, ret.residue == 0
@entry
  if mset(*this) { lemma_small_mod(0, this.modulus as nat); }

@fn intmath::intmod_t::exp(int) const
@requires mok2(*this)
@throws this.modulus == 0 || (e == 0 && this.residue == 0) || (e < 0 && (e == i32::MIN || !coprime(this.modulus as int, this.residue as int)))
@decreases (if e >= 0 { 0int } else { 3int })
@ensures mset(ret), ret.modulus == this.modulus,
  e >= 0 ==> ret.residue as int == pw(this.residue as int, e as nat) % this.modulus as int,
  e < 0 ==> is_inv(pw(this.residue as int, (-e) as nat), ret.residue as int, this.modulus as int),
@entry
  if mset(*this) { lemma_small_mod(1, this.modulus as nat); lemma_small_mod(0, this.modulus as nat); lemma_cop_zero(this.modulus as int); }
@loop 0
@before
  lemma_mexp_start(this.residue as int, e__in as int, xp as int, e as nat, this.modulus as int);
@inv
  mset(rv), rv.modulus == this.modulus, 0 <= xp < this.modulus, e >= 0,
  mexp_inv(this.residue as int, e__in as int, rv.residue as int, xp as int, e as nat, this.modulus as int),
@dec e
@top
  lemma_mexp_step(this.residue as int, e__in as int, rv.residue as int, xp as int, e as nat, this.modulus as int);
  lemma_mul_i32(rv.residue as int, xp as int); lemma_mul_i32(xp as int, xp as int);
  lemma_mul_nonneg(rv.residue as int, xp as int); lemma_mul_nonneg(xp as int, xp as int);
  lemma_trem_pos(rv.residue as int * xp as int, this.modulus as int); lemma_trem_pos(xp as int * xp as int, this.modulus as int);
  lemma_mod_bound(rv.residue as int * xp as int, this.modulus as int); lemma_mod_bound(xp as int * xp as int, this.modulus as int);
  lemma_i32_half(e);
@after
  lemma_mexp_end(this.residue as int, e__in as int, rv.residue as int, xp as int, this.modulus as int);

@fn intmath::intmod_t::operator+=(const intmod_t &)
@requires mok(*old(this)), mok(*that)
@throws mmix(*old(this), *that)
@ensures mset(*final(this)), final(this).modulus == old(this).modulus, final(this).residue as int == (old(this).residue as int + that.residue as int) % old(this).modulus as int

@fn intmath::intmod_t::operator-=(const intmod_t &)
@requires mok(*old(this)), mok(*that)
@throws mmix(*old(this), *that)
@ensures mset(*final(this)), final(this).modulus == old(this).modulus, final(this).residue as int == (old(this).residue as int - that.residue as int) % old(this).modulus as int

@fn intmath::intmod_t::operator*=(const intmod_t &)
@requires mok(*old(this)), mok(*that)
@throws mmix(*old(this), *that)
@ensures mset(*final(this)), final(this).modulus == old(this).modulus, final(this).residue as int == (old(this).residue as int * that.residue as int) % old(this).modulus as int

@fn intmath::intmod_t::operator/=(const intmod_t &)
@requires mok2(*old(this)), mok2(*that)
@throws mmix(*old(this), *that) || !coprime(that.modulus as int, that.residue as int)
@ensures mset(*final(this)), final(this).modulus == old(this).modulus, mquot(final(this).residue as int, old(this).residue as int, that.residue as int, old(this).modulus as int)

@fn intmath::intmod_t::operator%=(const intmod_t &)
@requires mok2(*old(this)), mok2(*that)
@throws mmix(*old(this), *that) || !coprime(that.modulus as int, that.residue as int)
@ensures mset(*final(this)), final(this).modulus == old(this).modulus, final(this).residue == 0
