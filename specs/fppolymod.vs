# ---- C12: residue classes of Fp[x] modulo m.  fmr, fmm: residue and modulus as polynomials; fmok: reduced residue, modulus of degree >= 1 over a prime field.
@fn polynomials::fp_polymod_t::fp_polymod_t()
@ensures fpdef(ret.residue), fpdef(ret.modulus)
@fn polynomials::fp_polymod_t::fp_polymod_t(const fp_poly_t &, const fp_poly_t &)
@requires fpok(*arg_residue), fpok(*arg_modulus), fpm(*arg_residue) == fpm(*arg_modulus), fld(fpm(*arg_modulus))
@throws fpp(*arg_modulus) == pz()
@ensures fpok(ret.modulus), fpok(ret.residue), fmm(ret) == fpp(*arg_modulus), fmp(ret) == fpm(*arg_modulus), fpm(ret.residue) == fpm(*arg_modulus), ret.modulus.degree == arg_modulus.degree, pisrem(fpp(*arg_residue), fmm(ret), fmr(ret), fmp(ret)), fmmod(*arg_modulus) ==> fmok(ret)
@entry lemma_fplead(*arg_modulus); lemma_fplead(*arg_residue);
@exit lemma_pisrm(fpp(*arg_residue), fmm(ret), fmr(ret), fmp(ret));
@fn polynomials::fp_polymod_t::fp_polymod_t(const fp_polymod_t &)
@requires fmst(*that)
@ensures fmst(ret), fmr(ret) == fmr(*that), fmm(ret) == fmm(*that), fmp(ret) == fmp(*that), fpm(ret.residue) == fpm(that.residue), ret.residue.degree == that.residue.degree, ret.modulus.degree == that.modulus.degree, fpok(that.residue) ==> fpok(ret.residue), fpok(that.modulus) ==> fpok(ret.modulus), fpdef(that.residue) ==> fpdef(ret.residue), fpdef(that.modulus) ==> fpdef(ret.modulus)
@fn polynomials::fp_polymod_t::operator=(const fp_polymod_t &)
@requires fmst(*old(this)), fmst(*that)
@ensures fmst(*final(this)), fmr(*final(this)) == fmr(*that), fmm(*final(this)) == fmm(*that), fmp(*final(this)) == fmp(*that), fpm(final(this).residue) == fpm(that.residue), final(this).residue.degree == that.residue.degree, final(this).modulus.degree == that.modulus.degree, fpok(that.residue) ==> fpok(final(this).residue), fpok(that.modulus) ==> fpok(final(this).modulus), fpdef(that.residue) ==> fpdef(final(this).residue), fpdef(that.modulus) ==> fpdef(final(this).modulus)
@fn polynomials::fp_polymod_t::prime_subfield_element(int) const
@requires fmok(*this)
@ensures fmhas(ret, *this), fmr(ret) == pc(v as int % fmp(*this))
@entry lemma_fmok(*this);
@exit lemma_fmok(ret); lemma_pzp(fmp(*this)); lemma_mod_bound(v as int, fmp(*this)); lemma_pol_const(v as int % fmp(*this), fmp(*this)); lemma_fmself(ret, pc(v as int % fmp(*this)));
@fn polynomials::fp_polymod_t::prime_subfield_element(int, const fp_poly_t &)
@requires fmmod(*m)
@ensures fmok(ret), fmp(ret) == fpm(*m), fmm(ret) == fpp(*m), fmr(ret) == pc(v as int % fpm(*m)), ret.modulus.degree == m.degree
@entry lemma_fplead(*m);
@exit lemma_fmok(ret); lemma_pzp(fmp(ret)); lemma_mod_bound(v as int, fmp(ret)); lemma_pol_const(v as int % fmp(ret), fmp(ret)); lemma_fmself(ret, pc(v as int % fmp(ret)));
@fn polynomials::fp_polymod_t::get_characteristic() const
@requires fpok(this.residue)
@ensures ret as int == fpm(this.residue)
@fn polynomials::fp_polymod_t::get_residue() const
@requires fpst(this.residue)
@ensures fpp(ret) == fmr(*this), fpok(this.residue) ==> fpok(ret), fpm(ret) == fpm(this.residue), ret.degree == this.residue.degree, fpst(ret)
@fn polynomials::fp_polymod_t::get_modulus() const
@requires fpst(this.modulus)
@ensures fpp(ret) == fmm(*this), fpok(this.modulus) ==> fpok(ret), fpm(ret) == fmp(*this), ret.degree == this.modulus.degree, fpst(ret)
@fn polynomials::fp_polymod_t::check_moduli(const fp_polymod_t &) const
@requires fpok(this.modulus), fpok(that.modulus)
@throws fmmix(*this, *that)
@entry lemma_fplead(this.modulus); lemma_fplead(that.modulus); if fmm(*this) == fmm(*that) { lemma_isdeg_uniq(fmm(*this), this.modulus.degree as int, that.modulus.degree as int); }
@fn polynomials::fp_polymod_t::operator+(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that)
@ensures fmres(ret, *this, padd(fmr(*this), fmr(*that), fmp(*this))), fmr(ret) == padd(fmr(*this), fmr(*that), fmp(*this))
@entry lemma_fmok(*this); lemma_fmok(*that);
@exit lemma_fmeq(*this, *that); lemma_padd_can(fmr(*this), fmr(*that), fmp(*this)); lemma_fpdle(fmr(*this), fmr(*that), this.modulus.degree - 1, this.modulus.degree - 1, fmp(*this)); lemma_fmself(ret, padd(fmr(*this), fmr(*that), fmp(*this)));
@fn polynomials::fp_polymod_t::operator-(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that)
@ensures fmres(ret, *this, psub(fmr(*this), fmr(*that), fmp(*this))), fmr(ret) == psub(fmr(*this), fmr(*that), fmp(*this))
@entry lemma_fmok(*this); lemma_fmok(*that);
@exit lemma_fmeq(*this, *that); lemma_padd_can(fmr(*this), fmr(*that), fmp(*this)); lemma_fpdle(fmr(*this), fmr(*that), this.modulus.degree - 1, this.modulus.degree - 1, fmp(*this)); lemma_fmself(ret, psub(fmr(*this), fmr(*that), fmp(*this)));
@fn polynomials::fp_polymod_t::operator-() const
@requires fmok(*this)
@ensures fmres(ret, *this, pneg(fmr(*this), fmp(*this))), fmr(ret) == pneg(fmr(*this), fmp(*this))
@entry lemma_fmok(*this);
@exit lemma_padd_can(fmr(*this), fmr(*this), fmp(*this)); lemma_fpdle(fmr(*this), fmr(*this), this.modulus.degree - 1, this.modulus.degree - 1, fmp(*this)); lemma_fmself(ret, pneg(fmr(*this), fmp(*this)));
@fn polynomials::fp_polymod_t::operator*(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that)
@ensures fmres(ret, *this, pmul(fmr(*this), fmr(*that), fmp(*this)))
@entry lemma_fmok(*this); lemma_fmok(*that); if !fmmix(*this, *that) { lemma_fmeq(*this, *that); }
@fn polynomials::fp_polymod_t::operator*(int) const
@requires fmok(*this)
@ensures fmhas(ret, *this), fmr(ret) == pscale(fmr(*this), a as int, fmp(*this))
@entry
let ghost pp = fmp(*this);
lemma_fmok(*this); lemma_pscale_1(fmr(*this), pp); lemma_pscale_mod(fmr(*this), a as int, pp); lemma_padd_laws(fmr(*this), fmr(*this), fmr(*this), pp); lemma_trem_mod2(a as int, pp); lemma_small_mod(0, pp as nat);
lemma_trem_pos(a as int, pp); lemma_mod_bound(a as int, pp);
@loop 0
@inv 1 <= i <= a, fmok(*this), fmhas(rv, *this), pp == fmp(*this), fmr(rv) == pscale(fmr(*this), i as int, pp)
@dec a - i
@top lemma_fmok(*this); lemma_pscale_next(fmr(*this), i as int, pp);
@fn polynomials::fp_polymod_t::operator*(spffl::intmath::intmod_t) const
@requires fmok(*this), mok(a)
@throws fmp(*this) != a.modulus
@ensures fmhas(ret, *this), fmr(ret) == pscale(fmr(*this), a.residue as int, fmp(*this))
@entry lemma_fmok(*this);
@exit lemma_fmok(*this); lemma_fplead(ret.modulus); lemma_pscale_can(fmr(*this), a__in.residue as int, fmp(*this), this.modulus.degree - 1); lemma_fplead(ret.residue); assert forall|d: int| #[trigger] isdeg(fmm(ret), d) implies dle(fmr(ret), d - 1) by { lemma_isdeg_uniq(fmm(ret), d, this.modulus.degree as int); }
@fn polynomials::fp_polymod_t::recip(fp_polymod_t &) const
@requires fmok(*this), fmst(*old(rinv))
@ensures ret == fmunit(*this), ret ==> fmhas(*final(rinv), *this) && fminv(*this, fmr(*final(rinv))), !ret ==> *final(rinv) == *old(rinv)
@entry lemma_fmok(*this);
@aftercall ext_gcd 0
lemma_fplead($ret); lemma_fplead(a); lemma_fplead(b);
lemma_pcop_gcd(fmr(*this), fmm(*this), fpp($ret), $ret.degree as int, fmp(*this));
@aftercall recip 0
lemma_pcop_unit(fmr(*this), fmm(*this), fpp(g), c0i.residue as int, fmp(*this));
lemma_pcomb_scale(fmr(*this), fmm(*this), fpp(g), fpp(a), fpp(b), c0i.residue as int, fmp(*this));
@beforecall operator= 1 lemma_fmok(rv); lemma_fplead(a); lemma_pcomb_inv(fmr(*this), fmm(*this), fpp(a), pscale(fpp(b), c0i.residue as int, fmp(*this)), fmr(rv), fmp(*this));
@fn polynomials::fp_polymod_t::operator/(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that) || !fmunit(*that)
@ensures fmhas(ret, *this), pquotm(fmr(ret), fmr(*that), fmr(*this), fmm(*this), fmp(*this))
@entry lemma_fmok(*this); lemma_fmok(*that);
@exit lemma_fmok(ret); lemma_fmok(bi); lemma_pquot(fmr(*this), fmr(*that), fmr(bi), fmr(ret), fmm(*this), fmp(*this));
@fn polynomials::fp_polymod_t::operator%(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that) || !fmunit(*that)
@ensures fmhas(ret, *this), fmr(ret) == pz()
@entry lemma_fmok(*this); lemma_fmok(*that); lemma_padd_laws(fmr(*this), fmr(*this), fmr(*this), fmp(*this));
@fn polynomials::fp_polymod_t::exp(int) const
@requires fmok(*this)
@throws (e == 0 && fmr(*this) == pz()) || (e < 0 && (e == i32::MIN || !fmunit(*this)))
@ensures fmhas(ret, *this), e >= 0 ==> pisrem(ppow(fmr(*this), e as nat, fmp(*this)), fmm(*this), fmr(ret), fmp(*this)), e < 0 ==> pcong(pmul(fmr(ret), ppow(fmr(*this), (-e) as nat, fmp(*this)), fmp(*this)), pc(1), fmm(*this), fmp(*this))
@entry
let ghost p = fmp(*this);
let ghost mut t = fmr(*this);
lemma_fmok(*this); lemma_pzp(p); lemma_pcop_zero(fmm(*this), this.modulus.degree as int, p); lemma_pcong_refl(pc(1), fmm(*this), p);
@beforecall operator== 0 lemma_fmok(zero); lemma_fmself(zero, pz());
@beforecall operator== 1 lemma_fmok(zero); lemma_fmself(zero, pz());
@beforecall operator/ 0 lemma_fmok(one); lemma_fmself(one, pc(1));
@aftercall operator/ 0 lemma_fmok($ret);
@loop 0
@before
lemma_fmok(one); lemma_fmself(one, pc(1)); lemma_fplead(xp); t = fpp(xp);
lemma_pexp_start(t, e as int, fmr(rv), fpp(xp), fmm(*this), p);
let ghost ea = e as int;
@inv
fmok(*this), p == fmp(*this), fmhas(rv, *this), fpok(xp), fpm(xp) == p, xp.degree < this.modulus.degree, pol(t, p), e >= 0, ea >= 0, pexpinv(t, ea, fmr(rv), fpp(xp), e as int, fmm(*this), p)
@dec e
@top
let ghost r0 = rv;
let ghost x0 = xp;
let ghost e0 = e;
lemma_fpand1(e); lemma_fmok(*this); lemma_fmok(rv); lemma_fplead(xp);
@aftercall operator% 0 lemma_pisrm(pmul(fmr(r0), fpp(x0), p), fmm(*this), fpp($ret), p);
@aftercall operator% 1
lemma_pisrm(pmul(fpp(x0), fpp(x0), p), fmm(*this), fpp($ret), p); lemma_fplead($ret); lemma_fplead(x0); lemma_fmok(rv); lemma_fplead(rv.residue); lemma_fprem_deg($ret, this.modulus);
lemma_pexp_step(t, ea, fmr(r0), fpp(x0), e0 as int, fmr(rv), fpp($ret), fmm(*this), p);
@after
lemma_fmok(rv); lemma_pexp_end(t, ea, fmr(rv), fpp(xp), fmm(*this), p); if e__in < 0 { lemma_pexp_inv(fmr(*this), t, ea as nat, fmr(rv), fmm(*this), p); }
@fn polynomials::fp_polymod_t::operator==(const fp_polymod_t &) const
@requires fpok(this.residue), fpok(that.residue), fpok(this.modulus), fpok(that.modulus), fpm(this.residue) == fpm(that.residue), fmp(*this) == fmp(*that)
@ensures ret == (fmr(*this) == fmr(*that) && fmm(*this) == fmm(*that))
@fn polynomials::fp_polymod_t::operator!=(const fp_polymod_t &) const
@requires fpok(this.residue), fpok(that.residue), fpok(this.modulus), fpok(that.modulus), fpm(this.residue) == fpm(that.residue), fmp(*this) == fmp(*that)
@ensures ret == !(fmr(*this) == fmr(*that) && fmm(*this) == fmm(*that))
@fn polynomials::fp_polymod_t::operator==(int) const
@requires fpok(this.residue)
@ensures ret == (fmr(*this) == pc(that as int))
@fn polynomials::fp_polymod_t::operator!=(int) const
@requires fpok(this.residue)
@ensures ret == (fmr(*this) != pc(that as int))
@fn polynomials::fp_polymod_t::operator+=(const fp_polymod_t &)
@requires fmok(*old(this)), fmok(*that)
@throws fmmix(*old(this), *that)
@ensures fmres(*final(this), *old(this), padd(fmr(*old(this)), fmr(*that), fmp(*old(this)))), fmr(*final(this)) == padd(fmr(*old(this)), fmr(*that), fmp(*old(this)))
@onerr *final(this) == *old(this)
@fn polynomials::fp_polymod_t::operator-=(const fp_polymod_t &)
@requires fmok(*old(this)), fmok(*that)
@throws fmmix(*old(this), *that)
@ensures fmres(*final(this), *old(this), psub(fmr(*old(this)), fmr(*that), fmp(*old(this)))), fmr(*final(this)) == psub(fmr(*old(this)), fmr(*that), fmp(*old(this)))
@onerr *final(this) == *old(this)
@fn polynomials::fp_polymod_t::operator*=(const fp_polymod_t &)
@requires fmok(*old(this)), fmok(*that)
@throws fmmix(*old(this), *that)
@ensures fmres(*final(this), *old(this), pmul(fmr(*old(this)), fmr(*that), fmp(*old(this))))
@onerr *final(this) == *old(this)
@fn polynomials::fp_polymod_t::operator*=(int)
@requires fmok(*old(this))
@ensures fmhas(*final(this), *old(this)), fmr(*final(this)) == pscale(fmr(*old(this)), a as int, fmp(*old(this)))
@fn polynomials::fp_polymod_t::operator*=(const spffl::intmath::intmod_t &)
@requires fmok(*old(this)), mok(*a)
@throws fmp(*old(this)) != a.modulus
@ensures fmhas(*final(this), *old(this)), fmr(*final(this)) == pscale(fmr(*old(this)), a.residue as int, fmp(*old(this)))
@onerr *final(this) == *old(this)
@fn polynomials::fp_polymod_t::operator/=(const fp_polymod_t &)
@requires fmok(*old(this)), fmok(*that)
@throws fmmix(*old(this), *that) || !fmunit(*that)
@ensures fmhas(*final(this), *old(this)), pquotm(fmr(*final(this)), fmr(*that), fmr(*old(this)), fmm(*old(this)), fmp(*old(this)))
@onerr *final(this) == *old(this)
@fn polynomials::fp_polymod_t::operator%=(const fp_polymod_t &)
@requires fmok(*old(this)), fmok(*that)
@throws fmmix(*old(this), *that) || !fmunit(*that)
@ensures fmhas(*final(this), *old(this)), fmr(*final(this)) == pz()
@onerr *final(this) == *old(this)
@fn polynomials::fp_polymod_t::operator<(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that)
@ensures ret == cmpval(20, fmr(*this), fmr(*that))
@fn polynomials::fp_polymod_t::operator<=(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that)
@ensures ret == cmpval(21, fmr(*this), fmr(*that))
@fn polynomials::fp_polymod_t::operator>(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that)
@ensures ret == cmpval(25, fmr(*this), fmr(*that))
@fn polynomials::fp_polymod_t::operator>=(const fp_polymod_t &) const
@requires fmok(*this), fmok(*that)
@throws fmmix(*this, *that)
@ensures ret == cmpval(24, fmr(*this), fmr(*that))
