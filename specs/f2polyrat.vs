# ---- C15: rational functions over F2.  qn/qd numerator and denominator; qok: denominator nonzero, numerator and denominator coprime (Bezout); qsame: cross products agree.
@fn rationals::f2_polyrat_t::simplify()
@requires qst(*old(this)), 2 * qsz(*old(this)) <= f2max()
@throws qd(*old(this)) == pz()
@ensures qok(*final(this)), qsame(qn(*final(this)), qd(*final(this)), qn(*old(this)), qd(*old(this))), dsub(qn(*final(this)), qn(*old(this))), dsub(qd(*final(this)), qd(*old(this))), final(this).numer.parts@.len() <= old(this).numer.parts@.len(), final(this).denom.parts@.len() <= old(this).denom.parts@.len()
@onerr *final(this) == *old(this)
@entry lemma_qst(*this); lemma_pconst(0);
@exit lemma_f2can(g.parts@); lemma_qst(*this); lemma_qsimp(qn(*old(this)), qd(*old(this)), qn(*this), qd(*this), f2p(g.parts@));
@fn rationals::f2_polyrat_t::f2_polyrat_t(const spffl::polynomials::f2_poly_t &, const spffl::polynomials::f2_poly_t &)
@requires f2ok(numerator.parts@), f2ok(denominator.parts@), 2 * (numerator.parts@.len() + denominator.parts@.len()) <= f2max()
@throws f2p(denominator.parts@) == pz()
@ensures qok(ret), qsame(qn(ret), qd(ret), f2p(numerator.parts@), f2p(denominator.parts@)), dsub(qn(ret), f2p(numerator.parts@)), dsub(qd(ret), f2p(denominator.parts@)), ret.numer.parts@.len() <= numerator.parts@.len(), ret.denom.parts@.len() <= denominator.parts@.len()
@fn rationals::f2_polyrat_t::f2_polyrat_t(const spffl::polynomials::f2_poly_t &)
@requires f2ok(numerator.parts@), 2 * numerator.parts@.len() + 2 <= f2max()
@ensures qok(ret), qn(ret) == f2p(numerator.parts@), qd(ret) == pc(1), ret.denom.parts@.len() == 1, ret.numer.parts@.len() <= numerator.parts@.len()
@beforecall simplify 0 lemma_qst(this); lemma_f2len(this.denom.parts@, 0); lemma_pconst(0);
@exit lemma_qst(this); lemma_f2can(numerator.parts@); lemma_qint(qn(this), qd(this), f2p(numerator.parts@));
@fn rationals::f2_polyrat_t::f2_polyrat_t(int)
@ensures qok(ret), qn(ret) == pc(inumer as int % 2), qd(ret) == pc(1), ret.numer.parts@.len() == 1, ret.denom.parts@.len() == 1
@beforecall simplify 0 lemma_qst(this); lemma_f2len(this.denom.parts@, 0); lemma_pconst(0); lemma_pc01(inumer as int);
@exit lemma_qst(this); lemma_pc01(inumer as int); lemma_qint(qn(this), qd(this), pc(inumer as int % 2));
@fn rationals::f2_polyrat_t::f2_polyrat_t()
@ensures qok(ret), qn(ret) == pz(), qd(ret) == pc(1), ret.numer.parts@.len() == 1, ret.denom.parts@.len() == 1
@exit lemma_qst(this); lemma_pc01(0); lemma_qlow1(pz()); lemma_f2len(this.denom.parts@, 0); lemma_f2len(this.numer.parts@, 0);
@fn rationals::f2_polyrat_t::f2_polyrat_t(const f2_polyrat_t &)
@ensures ret.numer.parts@ == that.numer.parts@, ret.denom.parts@ == that.denom.parts@
@fn rationals::f2_polyrat_t::prime_subfield_element(int) const
@ensures qok(ret), qn(ret) == pc(v as int % 2), qd(ret) == pc(1)
@entry lemma_c01(v);
@fn rationals::f2_polyrat_t::get_characteristic() const
@ensures ret == 2
@fn rationals::f2_polyrat_t::operator=(const f2_polyrat_t &)
@ensures final(this).numer.parts@ == that.numer.parts@, final(this).denom.parts@ == that.denom.parts@
@fn rationals::f2_polyrat_t::operator=(const spffl::polynomials::f2_poly_t &)
@requires f2ok(numerator.parts@), 2 * numerator.parts@.len() + 2 <= f2max()
@ensures qok(*final(this)), qn(*final(this)) == f2p(numerator.parts@), qd(*final(this)) == pc(1)
@beforecall simplify 0 lemma_qst(*this); lemma_f2len(this.denom.parts@, 0); lemma_pconst(0);
@exit lemma_qst(*this); lemma_f2can(numerator.parts@); lemma_qint(qn(*this), qd(*this), f2p(numerator.parts@));
@fn rationals::f2_polyrat_t::operator+(const f2_polyrat_t &) const
@requires qok(*this), qok(*that), qsz(*this) + qsz(*that) <= f2max() / 4
@ensures qok(ret), qsame(qn(ret), qd(ret), padd(pmul(qn(*this), qd(*that), 2), pmul(qd(*this), qn(*that), 2), 2), pmul(qd(*this), qd(*that), 2))
@entry lemma_qst(*this); lemma_qst(*that); lemma_pmul_nz(qd(*this), qd(*that));
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.numer.parts@, that.denom.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, this.denom.parts@, that.numer.parts@);
@aftercall operator* 2 lemma_mulsz($ret.parts@, this.denom.parts@, that.denom.parts@);
@fn rationals::f2_polyrat_t::operator+=(const f2_polyrat_t &)
@requires qok(*old(this)), qok(*that), qsz(*old(this)) + qsz(*that) <= f2max() / 4
@ensures qok(*final(this)), qsame(qn(*final(this)), qd(*final(this)), padd(pmul(qn(*old(this)), qd(*that), 2), pmul(qd(*old(this)), qn(*that), 2), 2), pmul(qd(*old(this)), qd(*that), 2))
@onerr *final(this) == *old(this)
@fn rationals::f2_polyrat_t::operator-(const f2_polyrat_t &) const
@requires qok(*this), qok(*that), qsz(*this) + qsz(*that) <= f2max() / 4
@ensures qok(ret), qsame(qn(ret), qd(ret), psub(pmul(qn(*this), qd(*that), 2), pmul(qd(*this), qn(*that), 2), 2), pmul(qd(*this), qd(*that), 2))
@entry lemma_qst(*this); lemma_qst(*that); lemma_pmul_nz(qd(*this), qd(*that));
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.numer.parts@, that.denom.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, this.denom.parts@, that.numer.parts@);
@aftercall operator* 2 lemma_mulsz($ret.parts@, this.denom.parts@, that.denom.parts@);
@fn rationals::f2_polyrat_t::operator-=(const f2_polyrat_t &)
@requires qok(*old(this)), qok(*that), qsz(*old(this)) + qsz(*that) <= f2max() / 4
@ensures qok(*final(this)), qsame(qn(*final(this)), qd(*final(this)), psub(pmul(qn(*old(this)), qd(*that), 2), pmul(qd(*old(this)), qn(*that), 2), 2), pmul(qd(*old(this)), qd(*that), 2))
@onerr *final(this) == *old(this)
@fn rationals::f2_polyrat_t::operator*(const f2_polyrat_t &)
@requires qok(*old(this)), qok(*that), qsz(*old(this)) + qsz(*that) <= f2max() / 4
@ensures qok(ret), qsame(qn(ret), qd(ret), pmul(qn(*old(this)), qn(*that), 2), pmul(qd(*old(this)), qd(*that), 2)), dsub(qn(ret), pmul(qn(*old(this)), qn(*that), 2)), dsub(qd(ret), pmul(qd(*old(this)), qd(*that), 2)), *final(this) == *old(this)
@onerr *final(this) == *old(this)
@entry lemma_qst(*this); lemma_qst(*that); lemma_pmul_nz(qd(*this), qd(*that));
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.numer.parts@, that.numer.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, this.denom.parts@, that.denom.parts@);
@fn rationals::f2_polyrat_t::operator*=(const f2_polyrat_t &)
@requires qok(*old(this)), qok(*that), qsz(*old(this)) + qsz(*that) <= f2max() / 4
@ensures qok(*final(this)), qsame(qn(*final(this)), qd(*final(this)), pmul(qn(*old(this)), qn(*that), 2), pmul(qd(*old(this)), qd(*that), 2)), dsub(qn(*final(this)), pmul(qn(*old(this)), qn(*that), 2)), dsub(qd(*final(this)), pmul(qd(*old(this)), qd(*that), 2))
@onerr *final(this) == *old(this)
@fn rationals::f2_polyrat_t::operator/(const f2_polyrat_t &)
@requires qok(*old(this)), qok(*that), qsz(*old(this)) + qsz(*that) <= f2max() / 4
@throws qn(*that) == pz()
@ensures qok(ret), qsame(qn(ret), qd(ret), pmul(qn(*old(this)), qd(*that), 2), pmul(qd(*old(this)), qn(*that), 2)), dsub(qn(ret), pmul(qn(*old(this)), qd(*that), 2)), dsub(qd(ret), pmul(qd(*old(this)), qn(*that), 2)), *final(this) == *old(this)
@onerr *final(this) == *old(this)
@entry lemma_qst(*this); lemma_qst(*that); lemma_pmul_nz(qd(*this), qd(*that)); if qn(*that) != pz() { lemma_pmul_nz(qd(*this), qn(*that)); } else { lemma_pmul_zero(qd(*this), 2); }
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.numer.parts@, that.denom.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, this.denom.parts@, that.numer.parts@);
@fn rationals::f2_polyrat_t::operator/=(const f2_polyrat_t &)
@requires qok(*old(this)), qok(*that), qsz(*old(this)) + qsz(*that) <= f2max() / 4
@throws qn(*that) == pz()
@ensures qok(*final(this)), qsame(qn(*final(this)), qd(*final(this)), pmul(qn(*old(this)), qd(*that), 2), pmul(qd(*old(this)), qn(*that), 2)), dsub(qn(*final(this)), pmul(qn(*old(this)), qd(*that), 2)), dsub(qd(*final(this)), pmul(qd(*old(this)), qn(*that), 2))
@onerr *final(this) == *old(this)
@fn rationals::f2_polyrat_t::operator%(const f2_polyrat_t &)
@requires qok(*old(this)), qok(*that), qsz(*old(this)) + qsz(*that) <= f2max() / 4, 2 * qsz(*that) <= f2max() / 4
@throws qn(*that) == pz()
@ensures qok(ret), qn(ret) == pz(), qd(ret) == pc(1), *final(this) == *old(this)
@onerr *final(this) == *old(this)
@entry lemma_qst(*this); lemma_qst(*that); lemma_pmul_nz(qd(*this), qd(*that)); lemma_pmul_comm(qn(*that), qd(*that), 2); lemma_qzero(qn(*that), qd(*that)); lemma_pmul_can(qd(*that), qn(*that), 2); lemma_pmul_nz(qd(*that), qd(*that)); lemma_padd_laws(pmul(qd(*that), qn(*that), 2), pz(), pz(), 2);
@aftercall operator- 0 lemma_qst($ret); lemma_qzfrac(qn($ret), qd($ret), pmul(qd(*that), qd(*that), 2));
@fn rationals::f2_polyrat_t::operator%=(const f2_polyrat_t &)
@requires qok(*old(this)), qok(*that), qsz(*old(this)) + qsz(*that) <= f2max() / 4, 2 * qsz(*that) <= f2max() / 4
@throws qn(*that) == pz()
@ensures qok(*final(this)), qn(*final(this)) == pz(), qd(*final(this)) == pc(1)
@onerr *final(this) == *old(this)
@fn rationals::f2_polyrat_t::operator-() const
@requires qok(*this)
@ensures qok(ret), qn(ret) == pneg(qn(*this), 2), qn(ret) == qn(*this), qd(ret) == qd(*this)
@entry lemma_qst(*this); lemma_f2neg_same(qn(*this));
@fn rationals::f2_polyrat_t::exp(int) const
@requires qok(*this), e == 0 || qbnd(qln(*this), qabs(e as int))
@throws qn(*this) == pz() && e <= 0
@ensures qok(ret), e >= 0 ==> qsame(qn(ret), qd(ret), ppow(qn(*this), e as nat, 2), ppow(qd(*this), e as nat, 2)), e < 0 ==> qsame(qn(ret), qd(ret), ppow(qd(*this), (-e) as nat, 2), ppow(qn(*this), (-e) as nat, 2))
@entry
let ghost ea: int = qabs(e as int);
let ghost nn = qnn(qln(*this), ea);
let ghost mut tn = qn(*this);
let ghost mut td = qd(*this);
lemma_qbnd(*this, e as int);
@aftercall operator/ 0 tn = qd(*this); td = qn(*this);
@loop 0
@before
lemma_dsub_refl(qn(*this)); lemma_dsub_refl(qd(*this)); lemma_qinv_start(tn, td, ea, rv, xp, qln(*this), this.numer.parts@, this.denom.parts@);
@inv ea >= 0, qok(*this), qinv(tn, td, ea, rv, xp, e as int, nn)
@dec e
@top
let ghost r0 = rv;
let ghost x0 = xp;
let ghost e0 = e;
lemma_shr1u(e); lemma_and1(e); lemma_qinv_top(tn, td, ea, rv, xp, e as int, nn);
@aftercall operator*= 1 lemma_qinv_step(tn, td, ea, r0, x0, rv, xp, e0 as int, nn);
@after
lemma_qinv_end(tn, td, ea, rv, xp, nn);
@fn rationals::f2_polyrat_t::operator==(const f2_polyrat_t &) const
@requires qok(*this), qok(*that)
@ensures ret == (qn(*this) == qn(*that) && qd(*this) == qd(*that)), ret == qsame(qn(*this), qd(*this), qn(*that), qd(*that))
@entry lemma_qeq(*this, *that);
@fn rationals::f2_polyrat_t::operator!=(const f2_polyrat_t &) const
@requires qok(*this), qok(*that)
@ensures ret == (qn(*this) != qn(*that) || qd(*this) != qd(*that)), ret == !qsame(qn(*this), qd(*this), qn(*that), qd(*that))
@fn rationals::f2_polyrat_t::operator==(spffl::polynomials::f2_poly_t) const
@requires qok(*this), f2ok(that.parts@)
@ensures ret == (qn(*this) == f2p(that.parts@) && qd(*this) == pc(1))
@entry lemma_qst(*this);
@fn rationals::f2_polyrat_t::operator!=(spffl::polynomials::f2_poly_t) const
@requires qok(*this), f2ok(that.parts@)
@ensures ret != (qn(*this) == f2p(that.parts@) && qd(*this) == pc(1))
@fn rationals::f2_polyrat_t::operator<(const f2_polyrat_t &) const
@requires qok(*this), qok(*that), qsz(*this) + qsz(*that) <= f2max()
@ensures ret == plt(pmul(qn(*this), qd(*that), 2), pmul(qd(*this), qn(*that), 2))
@entry lemma_qst(*this); lemma_qst(*that);
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.numer.parts@, that.denom.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, this.denom.parts@, that.numer.parts@);
@fn rationals::f2_polyrat_t::operator>(const f2_polyrat_t &) const
@requires qok(*this), qok(*that), qsz(*this) + qsz(*that) <= f2max()
@ensures ret == plt(pmul(qd(*this), qn(*that), 2), pmul(qn(*this), qd(*that), 2))
@entry lemma_qst(*this); lemma_qst(*that);
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.numer.parts@, that.denom.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, this.denom.parts@, that.numer.parts@);
@fn rationals::f2_polyrat_t::operator<=(const f2_polyrat_t &) const
@requires qok(*this), qok(*that), qsz(*this) + qsz(*that) <= f2max()
@ensures ret == (plt(pmul(qn(*this), qd(*that), 2), pmul(qd(*this), qn(*that), 2)) || pmul(qn(*this), qd(*that), 2) == pmul(qd(*this), qn(*that), 2))
@entry lemma_qst(*this); lemma_qst(*that);
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.numer.parts@, that.denom.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, this.denom.parts@, that.numer.parts@);
@fn rationals::f2_polyrat_t::operator>=(const f2_polyrat_t &) const
@requires qok(*this), qok(*that), qsz(*this) + qsz(*that) <= f2max()
@ensures ret == (plt(pmul(qd(*this), qn(*that), 2), pmul(qn(*this), qd(*that), 2)) || pmul(qn(*this), qd(*that), 2) == pmul(qd(*this), qn(*that), 2))
@entry lemma_qst(*this); lemma_qst(*that);
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.numer.parts@, that.denom.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, this.denom.parts@, that.numer.parts@);
@fn rationals::f2_polyrat_t::get_numerator() const
@ensures ret.parts@ == this.numer.parts@
@fn rationals::f2_polyrat_t::get_denominator() const
@ensures ret.parts@ == this.denom.parts@
