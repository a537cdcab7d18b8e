# Contracts for spffl/intmath/intrat_t.  rok: lowest terms, positive denominator.
@fn intmath::intrat_t::simplify()
@requires old(this).numer > i32::MIN, old(this).denom > i32::MIN
@throws old(this).denom == 0
@ensures rok(*final(this)), rsame(final(this).numer as int, final(this).denom as int, old(this).numer as int, old(this).denom as int)
@entry
  if this.denom != 0 { lemma_div_neg_all(this.numer as int, this.denom as int); }
@aftercall int_gcd 0
  lemma_simplify(this.numer as int, this.denom as int, $ret as int);
@exit
  if old(this).denom != 0 { lemma_simplify_same(this.numer as int, this.denom as int, g as int, old(this).numer as int, old(this).denom as int); }
@fn intmath::intrat_t::intrat_t(int, int)
@requires numerator > i32::MIN, denominator > i32::MIN
@throws denominator == 0
@ensures rok(ret), rsame(ret.numer as int, ret.denom as int, numerator as int, denominator as int)
@fn intmath::intrat_t::intrat_t(int)
@requires numerator > i32::MIN
@ensures rok(ret), ret.numer == numerator, ret.denom == 1
@exit lemma_rat_int(this.numer as int, this.denom as int, numerator as int);
@fn intmath::intrat_t::intrat_t()
@ensures rok(ret), ret.numer == 0, ret.denom == 1
@entry lemma_cop1(0);
@fn intmath::intrat_t::intrat_t(const intrat_t &)
@ensures ret.numer == that.numer, ret.denom == that.denom
@fn intmath::intrat_t::operator=(const intrat_t &)
@ensures *final(this) == *that
@fn intmath::intrat_t::operator=(int)
@requires numerator > i32::MIN
@ensures rok(*final(this)), final(this).numer == numerator, final(this).denom == 1
@exit lemma_rat_int(this.numer as int, this.denom as int, numerator as int);
@fn intmath::intrat_t::operator+(const intrat_t &) const
@requires rok(*this), rok(*that), fits((this.numer as int) * (that.denom as int)), fits((this.denom as int) * (that.numer as int)), fits((this.denom as int) * (that.denom as int)), fits((this.numer as int) * (that.denom as int) + (this.denom as int) * (that.numer as int))
@ensures rok(ret), rsame(ret.numer as int, ret.denom as int, (this.numer as int) * (that.denom as int) + (this.denom as int) * (that.numer as int), (this.denom as int) * (that.denom as int))
@entry lemma_mul_pos(this.denom as int, that.denom as int);
@fn intmath::intrat_t::operator+=(const intrat_t &)
@requires rok(*old(this)), rok(*that), fits((old(this).numer as int) * (that.denom as int)), fits((old(this).denom as int) * (that.numer as int)), fits((old(this).denom as int) * (that.denom as int)), fits((old(this).numer as int) * (that.denom as int) + (old(this).denom as int) * (that.numer as int))
@ensures rok(*final(this)), rsame(final(this).numer as int, final(this).denom as int, (old(this).numer as int) * (that.denom as int) + (old(this).denom as int) * (that.numer as int), (old(this).denom as int) * (that.denom as int))
@fn intmath::intrat_t::operator-(const intrat_t &) const
@requires rok(*this), rok(*that), fits((this.numer as int) * (that.denom as int)), fits((this.denom as int) * (that.numer as int)), fits((this.denom as int) * (that.denom as int)), fits((this.numer as int) * (that.denom as int) - (this.denom as int) * (that.numer as int))
@ensures rok(ret), rsame(ret.numer as int, ret.denom as int, (this.numer as int) * (that.denom as int) - (this.denom as int) * (that.numer as int), (this.denom as int) * (that.denom as int))
@entry lemma_mul_pos(this.denom as int, that.denom as int);
@fn intmath::intrat_t::operator-=(const intrat_t &)
@requires rok(*old(this)), rok(*that), fits((old(this).numer as int) * (that.denom as int)), fits((old(this).denom as int) * (that.numer as int)), fits((old(this).denom as int) * (that.denom as int)), fits((old(this).numer as int) * (that.denom as int) - (old(this).denom as int) * (that.numer as int))
@ensures rok(*final(this)), rsame(final(this).numer as int, final(this).denom as int, (old(this).numer as int) * (that.denom as int) - (old(this).denom as int) * (that.numer as int), (old(this).denom as int) * (that.denom as int))
@fn intmath::intrat_t::operator-() const
@requires rok(*this)
@ensures rok(ret), ret.numer == -this.numer, ret.denom == this.denom
@entry lemma_cop_neg(this.numer as int, this.denom as int);
@fn intmath::intrat_t::operator*(const intrat_t &)
@requires rok(*old(this)), rok(*that), fits((old(this).numer as int) * (that.numer as int)), fits((old(this).denom as int) * (that.denom as int))
@ensures *final(this) == *old(this), rok(ret), rsame(ret.numer as int, ret.denom as int, (old(this).numer as int) * (that.numer as int), (old(this).denom as int) * (that.denom as int)), rlow(ret.numer as int, ret.denom as int, (old(this).numer as int) * (that.numer as int), (old(this).denom as int) * (that.denom as int))
@exit lemma_rlow(rv.numer as int, rv.denom as int, (this.numer as int) * (that.numer as int), (this.denom as int) * (that.denom as int));
@entry lemma_mul_pos(this.denom as int, that.denom as int); lemma_mul_zero(this.denom as int, that.numer as int);
@fn intmath::intrat_t::operator*=(const intrat_t &)
@requires rok(*old(this)), rok(*that), fits((old(this).numer as int) * (that.numer as int)), fits((old(this).denom as int) * (that.denom as int))
@ensures rok(*final(this)), rsame(final(this).numer as int, final(this).denom as int, (old(this).numer as int) * (that.numer as int), (old(this).denom as int) * (that.denom as int)), rlow(final(this).numer as int, final(this).denom as int, (old(this).numer as int) * (that.numer as int), (old(this).denom as int) * (that.denom as int))
@fn intmath::intrat_t::operator/(const intrat_t &)
@requires rok(*old(this)), rok(*that), fits((old(this).numer as int) * (that.denom as int)), fits((old(this).denom as int) * (that.numer as int))
@throws that.numer == 0
@ensures *final(this) == *old(this), rok(ret), rsame(ret.numer as int, ret.denom as int, (old(this).numer as int) * (that.denom as int), (old(this).denom as int) * (that.numer as int))
@entry lemma_mul_pos(this.denom as int, that.denom as int); lemma_mul_zero(this.denom as int, that.numer as int);
@fn intmath::intrat_t::operator/=(const intrat_t &)
@requires rok(*old(this)), rok(*that), fits((old(this).numer as int) * (that.denom as int)), fits((old(this).denom as int) * (that.numer as int))
@throws that.numer == 0
@ensures rok(*final(this)), rsame(final(this).numer as int, final(this).denom as int, (old(this).numer as int) * (that.denom as int), (old(this).denom as int) * (that.numer as int))
@fn intmath::intrat_t::operator%(const intrat_t &)
@requires rok(*old(this)), rok(*that), fits((that.numer as int) * (that.denom as int)), fits((that.denom as int) * (that.numer as int)), fits((that.denom as int) * (that.denom as int))
@throws that.numer == 0
@ensures *final(this) == *old(this), rok(ret), ret.numer == 0, ret.denom == 1
@entry lemma_mul_comm(that.numer as int, that.denom as int); lemma_mul_pos(that.denom as int, that.denom as int); lemma_rat_zero2(that.numer as int, that.denom as int);
@aftercall operator- 0
  lemma_rat_zero($ret.numer as int, $ret.denom as int, that.denom as int * that.denom as int);
@fn intmath::intrat_t::operator%=(const intrat_t &)
@requires rok(*old(this)), rok(*that), fits((that.numer as int) * (that.denom as int)), fits((that.denom as int) * (that.numer as int)), fits((that.denom as int) * (that.denom as int))
@throws that.numer == 0
@ensures rok(*final(this)), final(this).numer == 0, final(this).denom == 1
@fn intmath::intrat_t::operator==(const intrat_t &) const
@requires rok(*this), rok(*that)
@ensures ret == rsame(this.numer as int, this.denom as int, that.numer as int, that.denom as int)
@entry lemma_rat_unique(this.numer as int, this.denom as int, that.numer as int, that.denom as int);
@fn intmath::intrat_t::operator!=(const intrat_t &) const
@requires rok(*this), rok(*that)
@ensures ret == !rsame(this.numer as int, this.denom as int, that.numer as int, that.denom as int)
@fn intmath::intrat_t::operator==(int) const
@requires rok(*this)
@ensures ret == rsame(this.numer as int, this.denom as int, that as int, 1)
@entry lemma_rat_eq_int(this.numer as int, this.denom as int, that as int);
@fn intmath::intrat_t::operator!=(int) const
@requires rok(*this)
@ensures ret == !rsame(this.numer as int, this.denom as int, that as int, 1)
@fn intmath::intrat_t::operator<(const intrat_t &) const
@requires rok(*this), rok(*that), fits((this.numer as int) * (that.denom as int)), fits((this.denom as int) * (that.numer as int))
@ensures ret == (((this.numer as int) * (that.denom as int)) < ((this.denom as int) * (that.numer as int)))
@fn intmath::intrat_t::operator<=(const intrat_t &) const
@requires rok(*this), rok(*that), fits((this.numer as int) * (that.denom as int)), fits((this.denom as int) * (that.numer as int))
@ensures ret == (((this.numer as int) * (that.denom as int)) <= ((this.denom as int) * (that.numer as int)))
@fn intmath::intrat_t::operator>(const intrat_t &) const
@requires rok(*this), rok(*that), fits((this.numer as int) * (that.denom as int)), fits((this.denom as int) * (that.numer as int))
@ensures ret == (((this.numer as int) * (that.denom as int)) > ((this.denom as int) * (that.numer as int)))
@fn intmath::intrat_t::operator>=(const intrat_t &) const
@requires rok(*this), rok(*that), fits((this.numer as int) * (that.denom as int)), fits((this.denom as int) * (that.numer as int))
@ensures ret == (((this.numer as int) * (that.denom as int)) >= ((this.denom as int) * (that.numer as int)))
@fn intmath::intrat_t::get_numerator() const
@ensures ret == this.numer
@fn intmath::intrat_t::get_denominator() const
@ensures ret == this.denom
@fn intmath::intrat_t::exp(int)
@requires rok(*old(this)), e == i32::MIN || (fits(pw(xnum(old(this).numer as int, old(this).denom as int, e as int), eabs(e as int))) && fits(pw(xden(old(this).numer as int, old(this).denom as int, e as int), eabs(e as int))))
@throws (e <= 0 && old(this).numer == 0) || e == i32::MIN
@ensures *final(this) == *old(this), rok(ret), ret.numer as int == pw(xnum(old(this).numer as int, old(this).denom as int, e as int), eabs(e as int)),
  ret.denom as int == pw(xden(old(this).numer as int, old(this).denom as int, e as int), eabs(e as int)),
@entry
  lemma_cop1(0); lemma_cop1(1);
  lemma_rat_zero2(this.numer as int, this.denom as int);
@loop 0
@before
  lemma_xexp_start(old(this).numer as int, old(this).denom as int, e__in as int, xp.numer as int, xp.denom as int);
@inv
  e >= 0, rok(rv), rok(xp), *this == *old(this),
  xexp(xnum(old(this).numer as int, old(this).denom as int, e__in as int), xden(old(this).numer as int, old(this).denom as int, e__in as int), eabs(e__in as int), rv.numer as int, rv.denom as int, xp.numer as int, xp.denom as int, e as nat),
@dec e
@top
  lemma_xexp_step(xnum(old(this).numer as int, old(this).denom as int, e__in as int), xden(old(this).numer as int, old(this).denom as int, e__in as int), eabs(e__in as int), rv.numer as int, rv.denom as int, xp.numer as int, xp.denom as int, e as nat);
  lemma_i32_half(e);
@after
  lemma_xexp_end(xnum(old(this).numer as int, old(this).denom as int, e__in as int), xden(old(this).numer as int, old(this).denom as int, e__in as int), eabs(e__in as int), rv.numer as int, rv.denom as int, xp.numer as int, xp.denom as int);
