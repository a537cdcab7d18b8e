# ---- C09: residue classes of F2[x] modulo m.  f2r, f2m: residue and modulus as polynomials; f2mok: reduced residue, modulus of degree >= 1.
@fn polynomials::f2_polymod_t::f2_polymod_t()
@ensures f2ok(ret.residue.parts@), f2ok(ret.modulus.parts@), f2r(ret) == pz(), f2m(ret) == pz()
@fn polynomials::f2_polymod_t::f2_polymod_t(const f2_poly_t &, const f2_poly_t &)
@requires f2ok(arg_residue.parts@), f2ok(arg_modulus.parts@), arg_residue.parts@.len() + arg_modulus.parts@.len() <= f2max()
@throws f2p(arg_modulus.parts@) == pz()
@ensures ret.modulus.parts@ == arg_modulus.parts@, f2ok(ret.residue.parts@), pisrem(f2p(arg_residue.parts@), f2m(ret), f2r(ret), 2), f2msz(arg_modulus.parts@) && f2deg(arg_modulus.parts@) >= 1 ==> f2mok(ret)
@exit lemma_f2isrem(f2p(arg_residue.parts@), f2m(ret), f2r(ret));
@fn polynomials::f2_polymod_t::f2_polymod_t(const f2_polymod_t &)
@ensures ret.residue.parts@ == that.residue.parts@, ret.modulus.parts@ == that.modulus.parts@
@fn polynomials::f2_polymod_t::operator=(const f2_polymod_t &)
@ensures final(this).residue.parts@ == that.residue.parts@, final(this).modulus.parts@ == that.modulus.parts@
@fn polynomials::f2_polymod_t::prime_subfield_element(int) const
@requires f2mok(*this)
@ensures f2mres(ret, f2m(*this), pc(v as int % 2)), f2r(ret) == pc(v as int % 2)
@entry lemma_f2mok(*this); lemma_pc01(v as int); lemma_f2deg_nz(this.modulus.parts@); lemma_c01(v);
@exit lemma_f2can(ret.residue.parts@); lemma_prem_pz(f2m(*this)); lemma_prem_one(f2m(*this), f2deg(this.modulus.parts@)); lemma_f2msame(pc(v as int % 2), f2m(*this), f2r(ret), f2deg(this.modulus.parts@));
@fn polynomials::f2_polymod_t::prime_subfield_element(int, const f2_poly_t &)
@requires f2msz(m.parts@), f2deg(m.parts@) >= 1
@ensures f2mres(ret, f2p(m.parts@), pc(v as int % 2)), f2r(ret) == pc(v as int % 2)
@entry lemma_pc01(v as int); lemma_f2deg_nz(m.parts@); lemma_c01(v); lemma_f2can(m.parts@); lemma_f2isdeg(m.parts@);
@exit lemma_f2can(ret.residue.parts@); lemma_prem_pz(f2p(m.parts@)); lemma_prem_one(f2p(m.parts@), f2deg(m.parts@)); lemma_f2msame(pc(v as int % 2), f2p(m.parts@), f2r(ret), f2deg(m.parts@));
@fn polynomials::f2_polymod_t::check_moduli(const f2_polymod_t &) const
@requires f2ok(this.modulus.parts@), f2ok(that.modulus.parts@)
@throws f2mix(*this, *that)
@fn polynomials::f2_polymod_t::get_residue() const
@ensures ret.parts@ == this.residue.parts@
@fn polynomials::f2_polymod_t::get_modulus() const
@ensures ret.parts@ == this.modulus.parts@
@fn polynomials::f2_polymod_t::get_characteristic() const
@ensures ret == 2
@fn polynomials::f2_polymod_t::change_modulus(const f2_poly_t &)
@requires f2ok(old(this).residue.parts@), f2ok(new_modulus.parts@), old(this).residue.parts@.len() + new_modulus.parts@.len() <= f2max()
@throws f2p(new_modulus.parts@) == pz()
@ensures final(this).modulus.parts@ == new_modulus.parts@, f2ok(final(this).residue.parts@), pisrem(f2r(*old(this)), f2m(*final(this)), f2r(*final(this)), 2), f2msz(new_modulus.parts@) && f2deg(new_modulus.parts@) >= 1 ==> f2mok(*final(this))
@exit lemma_f2isrem(f2r(*old(this)), f2m(*this), f2r(*this));

@fn polynomials::f2_polymod_t::operator+(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that)
@ensures f2mres(ret, f2m(*this), padd(f2r(*this), f2r(*that), 2))
@entry lemma_f2mok(*this); lemma_f2mok(*that); if !f2mix(*this, *that) { lemma_f2meq(*this, *that); }
@fn polynomials::f2_polymod_t::operator-(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that)
@ensures f2mres(ret, f2m(*this), psub(f2r(*this), f2r(*that), 2))
@entry lemma_f2mok(*this); lemma_f2mok(*that); if !f2mix(*this, *that) { lemma_f2meq(*this, *that); }
@fn polynomials::f2_polymod_t::operator-() const
@requires f2mok(*this)
@ensures f2mres(ret, f2m(*this), pneg(f2r(*this), 2)), f2r(ret) == f2r(*this)
@entry lemma_f2mok(*this); lemma_f2neg_same(f2r(*this));
@aftercall operator- 0 lemma_f2canon($ret.parts@, this.residue.parts@);
@exit lemma_f2can(ret.residue.parts@); lemma_f2msame(f2r(*this), f2m(*this), f2r(ret), f2deg(this.modulus.parts@));
@fn polynomials::f2_polymod_t::operator*(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that)
@ensures f2mres(ret, f2m(*this), pmul(f2r(*this), f2r(*that), 2))
@entry lemma_f2mok(*this); lemma_f2mok(*that); if !f2mix(*this, *that) { lemma_f2meq(*this, *that); }
@aftercall operator* 0 lemma_mulsz($ret.parts@, this.residue.parts@, that.residue.parts@);
@fn polynomials::f2_polymod_t::operator*(int) const
@requires f2mok(*this)
@ensures f2mres(ret, f2m(*this), f2mult(*this, a as int)), f2r(ret) == f2mult(*this, a as int)
@entry lemma_f2mok(*this); lemma_c01(a); lemma_pc01(a as int); lemma_padd_laws(f2r(*this), f2r(*this), f2r(*this), 2); lemma_pcong_refl(f2r(*this), f2m(*this), 2);
@exit lemma_f2can(ret.residue.parts@); lemma_prem_pz(f2m(*this)); if a as int % 2 == 0 { lemma_f2msame(pz(), f2m(*this), f2r(ret), f2deg(this.modulus.parts@)); }
@fn polynomials::f2_polymod_t::recip(f2_polymod_t &) const
@requires f2mok(*this)
@ensures ret == f2unit(*this), ret ==> f2mok(*final(rinv)) && f2m(*final(rinv)) == f2m(*this) && f2inv(*this, f2r(*final(rinv))), !ret ==> *final(rinv) == *old(rinv)
@entry lemma_f2mok(*this); lemma_nozd2();
@aftercall ext_gcd 0
lemma_f2can($ret.parts@); lemma_f2can(a.parts@); lemma_f2can(b.parts@); lemma_f2isdeg($ret.parts@); lemma_f2deg_nz($ret.parts@);
lemma_pcop_gcd(f2r(*this), f2m(*this), f2p($ret.parts@), f2deg($ret.parts@), 2);
assert(f2deg($ret.parts@) == 0 || f2deg($ret.parts@) > 0);
@exit if ret { lemma_f2can(rinv.residue.parts@); lemma_pcomb_inv(f2r(*this), f2m(*this), f2p(a.parts@), f2p(b.parts@), f2r(*rinv), 2); }
@fn polynomials::f2_polymod_t::operator/(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that) || !f2unit(*that)
@ensures f2mok(ret), f2m(ret) == f2m(*this), pcong(pmul(f2r(ret), f2r(*that), 2), f2r(*this), f2m(*this), 2)
@entry lemma_f2mok(*this); lemma_f2mok(*that);
@exit lemma_f2mok(ret); lemma_f2mok(bi); lemma_pquot(f2r(*this), f2r(*that), f2r(bi), f2r(ret), f2m(*this), 2);
@fn polynomials::f2_polymod_t::operator%(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that) || !f2unit(*that)
@ensures f2mok(ret), f2m(ret) == f2m(*this), f2r(ret) == pz()
@entry lemma_f2mok(*this); lemma_f2mok(*that); lemma_padd_laws(f2r(*this), f2r(*this), f2r(*this), 2);
@exit lemma_f2mok(ret); lemma_f2zero_res(f2m(*this), f2deg(this.modulus.parts@), f2r(ret));
@fn polynomials::f2_polymod_t::exp(int) const
@requires f2mok(*this)
@throws (e == 0 && f2r(*this) == pz()) || (e < 0 && (e == i32::MIN || !f2unit(*this)))
@ensures f2mok(ret), f2m(ret) == f2m(*this), e >= 0 ==> pisrem(ppow(f2r(*this), e as nat, 2), f2m(*this), f2r(ret), 2), e < 0 ==> pcong(pmul(f2r(ret), ppow(f2r(*this), (-e) as nat, 2), 2), pc(1), f2m(*this), 2)
@entry
let ghost mut t = f2r(*this);
lemma_f2mok(*this); lemma_nozd2(); lemma_pc01(0); lemma_f2deg_nz(this.modulus.parts@); lemma_pcop_zero(f2m(*this), f2deg(this.modulus.parts@), 2); lemma_pcong_refl(pc(1), f2m(*this), 2);
@beforecall operator== 0 lemma_f2can(zero.residue.parts@); lemma_f2zero_res(f2m(*this), f2deg(this.modulus.parts@), f2r(zero));
@beforecall operator== 1 lemma_f2can(zero.residue.parts@); lemma_f2zero_res(f2m(*this), f2deg(this.modulus.parts@), f2r(zero));
@aftercall operator/ 0 lemma_f2mok($ret); lemma_f2meq($ret, *this);
@loop 0
@before
lemma_f2can(one.residue.parts@); lemma_f2can(xp.parts@); lemma_f2mexp_init(f2m(*this), f2deg(this.modulus.parts@), f2r(one)); t = f2p(xp.parts@);
lemma_pexp_start(t, e as int, f2r(rv), f2p(xp.parts@), f2m(*this), 2);
let ghost ea = e as int;
@inv
f2mok(*this), f2mok(rv), f2m(rv) == f2m(*this), f2ok(xp.parts@), prem(f2p(xp.parts@), f2m(*this)), xp.parts@.len() <= this.modulus.parts@.len(), pol(t, 2), e >= 0, ea >= 0, pexpinv(t, ea, f2r(rv), f2p(xp.parts@), e as int, f2m(*this), 2)
@dec e
@top
let ghost r0 = rv;
let ghost x0 = xp;
let ghost e0 = e;
lemma_shr1u(e); lemma_and1(e); lemma_f2mok(*this); lemma_f2mok(rv);
@aftercall operator* 0 lemma_mulsz($ret.parts@, r0.residue.parts@, x0.parts@);
@aftercall operator% 0 lemma_f2isrem(pmul(f2r(r0), f2p(x0.parts@), 2), f2m(*this), f2p($ret.parts@));
@aftercall operator* 1 lemma_mulsz($ret.parts@, x0.parts@, x0.parts@);
@aftercall operator% 1
lemma_f2isrem(pmul(f2p(x0.parts@), f2p(x0.parts@), 2), f2m(*this), f2p($ret.parts@)); lemma_f2can($ret.parts@); lemma_f2can(x0.parts@); lemma_f2can(rv.residue.parts@);
if f2p($ret.parts@) != pz() { lemma_rem_deg($ret.parts@, this.modulus.parts@); } else { lemma_f2len($ret.parts@, 0); }
lemma_pexp_step(t, ea, f2r(r0), f2p(x0.parts@), e0 as int, f2r(rv), f2p($ret.parts@), f2m(*this), 2);
@after
lemma_f2mok(rv); lemma_pexp_end(t, ea, f2r(rv), f2p(xp.parts@), f2m(*this), 2); if e__in < 0 { lemma_pexp_inv(f2r(*this), t, ea as nat, f2r(rv), f2m(*this), 2); }
@fn polynomials::f2_polymod_t::operator+=(const f2_polymod_t &)
@requires f2mok(*old(this)), f2mok(*that)
@throws f2mix(*old(this), *that)
@ensures f2mres(*final(this), f2m(*old(this)), padd(f2r(*old(this)), f2r(*that), 2))
@onerr *final(this) == *old(this)
@fn polynomials::f2_polymod_t::operator-=(const f2_polymod_t &)
@requires f2mok(*old(this)), f2mok(*that)
@throws f2mix(*old(this), *that)
@ensures f2mres(*final(this), f2m(*old(this)), psub(f2r(*old(this)), f2r(*that), 2))
@onerr *final(this) == *old(this)
@fn polynomials::f2_polymod_t::operator*=(const f2_polymod_t &)
@requires f2mok(*old(this)), f2mok(*that)
@throws f2mix(*old(this), *that)
@ensures f2mres(*final(this), f2m(*old(this)), pmul(f2r(*old(this)), f2r(*that), 2))
@onerr *final(this) == *old(this)
@fn polynomials::f2_polymod_t::operator*=(int)
@requires f2mok(*old(this))
@ensures f2mres(*final(this), f2m(*old(this)), f2mult(*old(this), a as int)), f2r(*final(this)) == f2mult(*old(this), a as int)
@fn polynomials::f2_polymod_t::operator/=(const f2_polymod_t &)
@requires f2mok(*old(this)), f2mok(*that)
@throws f2mix(*old(this), *that) || !f2unit(*that)
@ensures f2mok(*final(this)), f2m(*final(this)) == f2m(*old(this)), pcong(pmul(f2r(*final(this)), f2r(*that), 2), f2r(*old(this)), f2m(*old(this)), 2)
@onerr *final(this) == *old(this)
@fn polynomials::f2_polymod_t::operator%=(const f2_polymod_t &)
@requires f2mok(*old(this)), f2mok(*that)
@throws f2mix(*old(this), *that) || !f2unit(*that)
@ensures f2mok(*final(this)), f2m(*final(this)) == f2m(*old(this)), f2r(*final(this)) == pz()
@onerr *final(this) == *old(this)
@fn polynomials::f2_polymod_t::operator==(const f2_polymod_t &) const
@requires f2ok(this.residue.parts@), f2ok(that.residue.parts@), f2ok(this.modulus.parts@), f2ok(that.modulus.parts@)
@ensures ret == (f2r(*this) == f2r(*that) && f2m(*this) == f2m(*that))
@fn polynomials::f2_polymod_t::operator!=(const f2_polymod_t &) const
@requires f2ok(this.residue.parts@), f2ok(that.residue.parts@), f2ok(this.modulus.parts@), f2ok(that.modulus.parts@)
@ensures ret == !(f2r(*this) == f2r(*that) && f2m(*this) == f2m(*that))
@fn polynomials::f2_polymod_t::operator==(int) const
@requires f2ok(this.residue.parts@)
@ensures ret == (f2r(*this) == pc(that as int % 2))
@fn polynomials::f2_polymod_t::operator!=(int) const
@requires f2ok(this.residue.parts@)
@ensures ret == (f2r(*this) != pc(that as int % 2))
@fn polynomials::f2_polymod_t::operator<(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that)
@ensures ret == cmpval(20, f2r(*this), f2r(*that))
@fn polynomials::f2_polymod_t::operator<=(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that)
@ensures ret == cmpval(21, f2r(*this), f2r(*that))
@fn polynomials::f2_polymod_t::operator>(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that)
@ensures ret == cmpval(25, f2r(*this), f2r(*that))
@fn polynomials::f2_polymod_t::operator>=(const f2_polymod_t &) const
@requires f2mok(*this), f2mok(*that)
@throws f2mix(*this, *that)
@ensures ret == cmpval(24, f2r(*this), f2r(*that))
