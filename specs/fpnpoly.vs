# ---- C14: F(p^n)[x], coefficient by coefficient over C12's residue classes
@fn polynomials::fpn_poly_t::fpn_poly_t()
@ensures ret.degree == 0, gnst(ret)
@beforecall operator= 0 lemma_gcells(this.coeffs.v@);
@fn polynomials::fpn_poly_t::fpn_poly_t(const fp_polymod_t &)
@requires fmok(*c0)
@ensures gnok(ret), ret.degree == 0, gv(ret.coeffs.v@[0], *c0), gnlead(ret), fmhas(gm(ret), *c0)
@beforecall operator= 0 lemma_gcells(this.coeffs.v@);
@fn polynomials::fpn_poly_t::fpn_poly_t(const fp_polymod_t &, const fp_polymod_t &)
@requires fmok(*c0), fmok(*c1), fmhas(*c1, *c0)
@ensures gnok(ret), gnlead(ret), fmhas(gm(ret), *c0), gcf(ret, 0) == fmr(*c0), gcf(ret, 1) == fmr(*c1), ret.degree <= 1
@beforecall operator= 0 lemma_gcells(this.coeffs.v@);
@fn polynomials::fpn_poly_t::fpn_poly_t(const fp_polymod_t &, const fp_polymod_t &, const fp_polymod_t &)
@requires fmok(*c0), fmok(*c1), fmok(*c2), fmhas(*c1, *c0), fmhas(*c2, *c0)
@ensures gnok(ret), gnlead(ret), fmhas(gm(ret), *c0), gcf(ret, 0) == fmr(*c0), gcf(ret, 1) == fmr(*c1), gcf(ret, 2) == fmr(*c2), ret.degree <= 2
@beforecall operator= 0 lemma_gcells(this.coeffs.v@);
@fn polynomials::fpn_poly_t::fpn_poly_t(const fpn_poly_t &)
@requires gnst(*that)
@ensures gnst(ret), gneq(ret, *that), gnok(*that) ==> gnlike(ret, *that)
@exit lemma_gncopy(ret, *that);
@loop 0
@before lemma_gcells(this.coeffs.v@);
@inv 0 <= i <= that.degree + 1, gnst(this), gnst(*that), this.degree == that.degree, gnsame(this, *that, i as int)
@dec that.degree + 1 - i
@fn polynomials::fpn_poly_t::operator=(const fpn_poly_t &)
@requires gnst(*old(this)), gnst(*that)
@ensures gnst(*final(this)), gneq(*final(this), *that), gnok(*that) ==> gnlike(*final(this), *that)
@entry
let ghost b = *that;
@exit lemma_gncopy(*this, b);
@loop 0
@before lemma_gcells(this.coeffs.v@);
@inv 0 <= i <= b.degree + 1, gnst(*this), gnst(*that), this.degree == b.degree, that.degree == b.degree, gnsame(*that, b, b.degree + 1), gnsame(*this, b, i as int)
@dec b.degree + 1 - i
@fn polynomials::fpn_poly_t::get_characteristic() const
@requires gnok(*this)
@ensures ret as int == gp(*this)
@entry assert(ge(this.coeffs.v@[0], gm(*this))); lemma_fmok(this.coeffs.v@[0]);
@fn polynomials::fpn_poly_t::find_degree() const
@ensures ret == this.degree
@fn polynomials::fpn_poly_t::prime_subfield_element(int) const
@requires gnok(*this)
@entry assert(ge(this.coeffs.v@[0], gm(*this)));
@ensures gnok(ret), ghm(ret, *this), ret.degree == 0, gcf(ret, 0) == pc(v as int % gp(*this)), gnlead(ret)
@fn polynomials::fpn_poly_t::prime_subfield_element(int, const fp_poly_t &)
@requires fmmod(*m)
@ensures gnok(ret), fmm(gm(ret)) == fpp(*m), gp(ret) == fpm(*m), ret.degree == 0, gcf(ret, 0) == pc(v as int % fpm(*m)), gnlead(ret)
@entry lemma_fp(*m); lemma_fplead(*m); lemma_mod_bound(v as int, fpm(*m)); assert(fpp(*m)(m.degree as int) != 0); assert(fpp(*m) != pz());
@aftercall fp_poly_t 0 lemma_peq(pcs(0, 0, v as int % fpm(*m)), pc(v as int % fpm(*m)));
@aftercall fp_polymod_t 0 lemma_fmok($ret); lemma_pzp(fmp($ret)); lemma_pol_const(v as int % fmp($ret), fmp($ret)); lemma_fmself($ret, pc(v as int % fmp($ret)));
@fn polynomials::fpn_poly_t::recompute_degree()
@requires gnok(*old(this))
@ensures gnok(*final(this)), gnlead(*final(this)), final(this).coeffs == old(this).coeffs, final(this).degree <= old(this).degree, forall|k: int| #[trigger] gcf(*final(this), k) == gcf(*old(this), k)
@entry
let ghost o = *this;
assert(ge(o.coeffs.v@[0], gm(o))); lemma_fmok(this.coeffs.v@[0]);
@loop 0
@before lemma_gnz(o.coeffs.v@[0]);
@inv -1 <= i <= o.degree, gnok(o), o == *old(this), is_zero, this.degree == o.degree, this.coeffs == o.coeffs, ge(zero, gm(o)), fmr(zero) == pz(), forall|k: int| i < k <= o.degree ==> fmr(#[trigger] o.coeffs.v@[k]) == pz()
@top assert(ge(o.coeffs.v@[i as int], gm(o))); lemma_fmok(o.coeffs.v@[i as int]); lemma_fmok(zero);
@lens forall|k: int| this.degree < k <= o.degree ==> fmr(#[trigger] o.coeffs.v@[k]) == pz(), is_zero ==> (this.degree == o.degree && (forall|k: int| 0 <= k <= o.degree ==> fmr(#[trigger] o.coeffs.v@[k]) == pz())), !is_zero ==> (0 <= this.degree <= o.degree && fmr(o.coeffs.v@[this.degree as int]) != pz()), this.coeffs == o.coeffs
@dec i + 1
@fn polynomials::fpn_poly_t::operator+(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), forall|k: int| #[trigger] gcf(ret, k) == padd(gcf(*this, k), gcf(*that, k), gp(*this))
@entry assert(ge(this.coeffs.v@[0], gm(*this))); lemma_gnz(this.coeffs.v@[0]);
@loop 0
@before lemma_gcells(rv.coeffs.v@);
@inv 0 <= i <= this.degree + 1, this.degree < that.degree, rv.degree == that.degree, gnst(rv), gnadd(rv, *this, *that, i as int)
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); assert(ge(that.coeffs.v@[i as int], gm(*this)));
@dec this.degree + 1 - i
@loop 1
@inv this.degree + 1 <= i <= that.degree + 1, this.degree < that.degree, rv.degree == that.degree, gnst(rv), gnadd(rv, *this, *that, i as int)
@top assert(ge(that.coeffs.v@[i as int], gm(*this))); lemma_gnz(that.coeffs.v@[i as int]);
@dec that.degree + 1 - i
@loop 2
@before lemma_gcells(rv.coeffs.v@);
@inv 0 <= i <= that.degree + 1, this.degree >= that.degree, rv.degree == this.degree, gnst(rv), gnadd(rv, *this, *that, i as int)
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); assert(ge(that.coeffs.v@[i as int], gm(*this)));
@dec that.degree + 1 - i
@loop 3
@inv that.degree + 1 <= i <= this.degree + 1, this.degree >= that.degree, rv.degree == this.degree, gnst(rv), gnadd(rv, *this, *that, i as int)
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); lemma_gnz(this.coeffs.v@[i as int]);
@dec this.degree + 1 - i
@beforecall recompute_degree 0 lemma_gndone(rv, *this);
@fn polynomials::fpn_poly_t::operator-(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), forall|k: int| #[trigger] gcf(ret, k) == psub(gcf(*this, k), gcf(*that, k), gp(*this))
@entry assert(ge(this.coeffs.v@[0], gm(*this))); lemma_gnz(this.coeffs.v@[0]);
@loop 0
@before lemma_gcells(rv.coeffs.v@);
@inv 0 <= i <= this.degree + 1, this.degree < that.degree, rv.degree == that.degree, gnst(rv), gnsub(rv, *this, *that, i as int)
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); assert(ge(that.coeffs.v@[i as int], gm(*this)));
@dec this.degree + 1 - i
@loop 1
@inv this.degree + 1 <= i <= that.degree + 1, this.degree < that.degree, rv.degree == that.degree, gnst(rv), gnsub(rv, *this, *that, i as int)
@top assert(ge(that.coeffs.v@[i as int], gm(*this))); lemma_gnz(that.coeffs.v@[i as int]);
@dec that.degree + 1 - i
@loop 2
@before lemma_gcells(rv.coeffs.v@);
@inv 0 <= i <= that.degree + 1, this.degree >= that.degree, rv.degree == this.degree, gnst(rv), gnsub(rv, *this, *that, i as int)
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); assert(ge(that.coeffs.v@[i as int], gm(*this)));
@dec that.degree + 1 - i
@loop 3
@inv that.degree + 1 <= i <= this.degree + 1, this.degree >= that.degree, rv.degree == this.degree, gnst(rv), gnsub(rv, *this, *that, i as int)
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); lemma_gnz(this.coeffs.v@[i as int]);
@dec this.degree + 1 - i
@beforecall recompute_degree 0 lemma_gndone(rv, *this);
@fn polynomials::fpn_poly_t::operator-() const
@requires gnok(*this)
@ensures gnok(ret), ghm(ret, *this), gnlead(*this) ==> gnlead(ret), forall|k: int| #[trigger] gcf(ret, k) == pneg(gcf(*this, k), gp(*this))
@entry assert(ge(this.coeffs.v@[0], gm(*this))); lemma_gnz(this.coeffs.v@[0]);
@loop 0
@before lemma_gcells(rv.coeffs.v@);
@inv 0 <= i <= this.degree + 1, gnst(rv), rv.degree == this.degree, forall|k: int| 0 <= k < i ==> ge(#[trigger] rv.coeffs.v@[k], gm(*this)) && fmr(rv.coeffs.v@[k]) == pneg(gcf(*this, k), gp(*this))
@top assert(ge(this.coeffs.v@[i as int], gm(*this)));
@dec this.degree + 1 - i
@after lemma_gndone(rv, *this); lemma_gnneg(this.coeffs.v@[this.degree as int]);
@fn polynomials::fpn_poly_t::operator*(const fp_polymod_t &) const
@requires gnok(*this), ge(*a, gm(*this))
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), ret.degree <= this.degree, forall|k: int| 0 <= k <= this.degree ==> pisrem(pmul(gcf(*this, k), fmr(*a), gp(*this)), fmm(gm(*this)), #[trigger] gcf(ret, k), gp(*this))
@loop 0
@inv 0 <= i <= this.degree + 1, gnst(rv), rv.degree == this.degree, gnmuls(rv, *this, *a, i as int), gnfrom(rv, *this, i as int)
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); assert(gv(rv.coeffs.v@[i as int], this.coeffs.v@[i as int]));
@dec this.degree + 1 - i
@beforecall recompute_degree 0 assert(ge(this.coeffs.v@[0], gm(*this))); lemma_gndone(rv, *this);
@fn polynomials::fpn_poly_t::operator/(const fp_polymod_t &) const
@requires gnok(*this), ge(*a, gm(*this))
@throws !fmunit(*a)
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), ret.degree <= this.degree, forall|k: int| 0 <= k <= this.degree ==> pcong(pmul(#[trigger] gcf(ret, k), fmr(*a), gp(*this)), gcf(*this, k), fmm(gm(*this)), gp(*this))
@loop 0
@inv 0 <= i <= this.degree + 1, gnst(rv), rv.degree == this.degree, gndivs(rv, *this, *a, i as int), gnfrom(rv, *this, i as int), i > 0 ==> fmunit(*a)
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); assert(gv(rv.coeffs.v@[i as int], this.coeffs.v@[i as int]));
@dec this.degree + 1 - i
@beforecall recompute_degree 0 assert(ge(this.coeffs.v@[0], gm(*this))); lemma_gndone(rv, *this);
@fn polynomials::fpn_poly_t::operator+(const fp_polymod_t &) const
@requires gnok(*this), ge(*a, gm(*this))
@entry assert(ge(this.coeffs.v@[0], gm(*this)));
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), gcf(ret, 0) == padd(gcf(*this, 0), fmr(*a), gp(*this)), forall|k: int| k != 0 ==> #[trigger] gcf(ret, k) == gcf(*this, k)
@fn polynomials::fpn_poly_t::operator-(const fp_polymod_t &) const
@requires gnok(*this), ge(*a, gm(*this))
@entry assert(ge(this.coeffs.v@[0], gm(*this)));
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), gcf(ret, 0) == psub(gcf(*this, 0), fmr(*a), gp(*this)), forall|k: int| k != 0 ==> #[trigger] gcf(ret, k) == gcf(*this, k)
@fn polynomials::fpn_poly_t::get_coeff(int) const
@requires gnok(*this)
@throws deg < 0
@ensures ge(ret, gm(*this)), fmr(ret) == gcf(*this, deg as int)
@entry assert(ge(this.coeffs.v@[0], gm(*this))); lemma_gnz(this.coeffs.v@[0]);
@fn polynomials::fpn_poly_t::bounds_check(int) const
@throws deg < 0 || deg > this.degree
@fn polynomials::fpn_poly_t::operator*(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that), this.degree + that.degree <= gnmax()
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), ret.degree <= this.degree + that.degree, forall|k: int| 0 <= k <= this.degree + that.degree ==> pisrem(msum(gnq(*this), gnq(*that), k, this.degree + 1, gp(*this)), fmm(gm(*this)), #[trigger] gcf(ret, k), gp(*this))
@entry
let ghost m = gm(*this);
assert(ge(this.coeffs.v@[0], m)); lemma_gnz(this.coeffs.v@[0]);
@loop 0
@before lemma_gnz(zero); lemma_gcells(rv.coeffs.v@);
@inv 0 <= k <= rv.degree + 1, gnst(rv), rv.degree == this.degree + that.degree, fmres(zero, m, pz()), forall|j: int| 0 <= j < k ==> fmres(#[trigger] rv.coeffs.v@[j], m, pz())
@dec rv.degree + 1 - k
@loop 1
@inv 0 <= i <= this.degree + 1, m == gm(*this), gnok(*this), gnok(*that), ghm(*that, *this), gnst(rv), rv.degree == this.degree + that.degree, gnpart(rv, *this, *that, i as int, 0)
@dec this.degree + 1 - i
@end lemma_gnrow(rv, *this, *that, i as int);
@loop 2
@inv 0 <= j <= that.degree + 1, 0 <= i <= this.degree, m == gm(*this), gnok(*this), gnok(*that), ghm(*that, *this), gnst(rv), rv.degree == this.degree + that.degree, gnpart(rv, *this, *that, i as int, j as int)
@dec that.degree + 1 - j
@top
let ghost pv = rv;
assert(ge(this.coeffs.v@[i as int], m)); assert(ge(that.coeffs.v@[j as int], m)); assert(fmok(rv.coeffs.v@[i + j]));
@aftercall operator* 0
let ghost pr = $ret;
@end lemma_gncell(pv.coeffs.v@[i + j], this.coeffs.v@[i as int], that.coeffs.v@[j as int], pr, rv.coeffs.v@[i + j], gnq(*this), gnq(*that), i + j, i as int, m);
@beforecall recompute_degree 0 lemma_gndone(rv, *this);
@fn polynomials::fpn_poly_t::operator+=(const fpn_poly_t &)
@requires gnok(*old(this)), gnok(*that), ghm(*that, *old(this))
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*final(this)), forall|k: int| #[trigger] gcf(*final(this), k) == padd(gcf(*old(this), k), gcf(*that, k), gp(*old(this)))
@fn polynomials::fpn_poly_t::operator-=(const fpn_poly_t &)
@requires gnok(*old(this)), gnok(*that), ghm(*that, *old(this))
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*final(this)), forall|k: int| #[trigger] gcf(*final(this), k) == psub(gcf(*old(this), k), gcf(*that, k), gp(*old(this)))
@fn polynomials::fpn_poly_t::operator*=(const fpn_poly_t &)
@requires gnok(*old(this)), gnok(*that), ghm(*that, *old(this)), old(this).degree + that.degree <= gnmax()
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*final(this)), final(this).degree <= old(this).degree + that.degree, forall|k: int| 0 <= k <= old(this).degree + that.degree ==> pisrem(msum(gnq(*old(this)), gnq(*that), k, old(this).degree + 1, gp(*old(this))), fmm(gm(*old(this))), #[trigger] gcf(*final(this), k), gp(*old(this)))
@fn polynomials::fpn_poly_t::operator+=(const fp_polymod_t &)
@requires gnok(*old(this)), ge(*a, gm(*old(this)))
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*final(this)), gcf(*final(this), 0) == padd(gcf(*old(this), 0), fmr(*a), gp(*old(this))), forall|k: int| k != 0 ==> #[trigger] gcf(*final(this), k) == gcf(*old(this), k)
@fn polynomials::fpn_poly_t::operator-=(const fp_polymod_t &)
@requires gnok(*old(this)), ge(*a, gm(*old(this)))
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*final(this)), gcf(*final(this), 0) == psub(gcf(*old(this), 0), fmr(*a), gp(*old(this))), forall|k: int| k != 0 ==> #[trigger] gcf(*final(this), k) == gcf(*old(this), k)
@fn polynomials::fpn_poly_t::operator*=(const fp_polymod_t &)
@requires gnok(*old(this)), ge(*a, gm(*old(this)))
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*final(this)), final(this).degree <= old(this).degree, forall|k: int| 0 <= k <= old(this).degree ==> pisrem(pmul(gcf(*old(this), k), fmr(*a), gp(*old(this))), fmm(gm(*old(this))), #[trigger] gcf(*final(this), k), gp(*old(this)))
@fn polynomials::fpn_poly_t::deriv() const
@requires gnok(*this)
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), forall|k: int| k >= 0 ==> #[trigger] gcf(ret, k) == pscale(gcf(*this, k + 1), k + 1, gp(*this))
@entry assert(ge(this.coeffs.v@[0], gm(*this))); lemma_fmok(this.coeffs.v@[0]); lemma_pscale_1(pz(), gp(*this)); lemma_gnz(this.coeffs.v@[0]); lemma_gnderivz(gp(*this));
@loop 0
@inv 1 <= i <= this.degree + 1, gnok(*this), p as int == gp(*this), p >= 2, gnst(rv), rv.degree == this.degree - 1, rv.coeffs.v@.len() > this.degree, forall|k: int| 0 <= k < i - 1 ==> ge(#[trigger] rv.coeffs.v@[k], gm(*this)) && fmr(rv.coeffs.v@[k]) == pscale(gcf(*this, k + 1), k + 1, gp(*this))
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); lemma_pscale_mod(gcf(*this, i as int), i as int, p as int);
@dec this.degree + 1 - i
@beforecall recompute_degree 0 assert(ge(this.coeffs.v@[0], gm(*this))); lemma_gndone(rv, *this);
@fn polynomials::fpn_poly_t::eval(const fp_polymod_t &) const
@requires gnok(*this), ge(*c, gm(*this))
@ensures fmres(ret, gm(*this), mhor(gnq(*this), fmr(*c), 0, this.degree as int, gp(*this)))
@entry assert(ge(this.coeffs.v@[this.degree as int], gm(*this))); lemma_gnz(this.coeffs.v@[this.degree as int]);
@loop 0
@inv -1 <= i < this.degree, gnok(*this), ge(*c, gm(*this)), fmres(rv, gm(*this), mhor(gnq(*this), fmr(*c), i + 1, this.degree as int, gp(*this)))
@dec i + 1
@top
let ghost r0 = rv;
assert(ge(this.coeffs.v@[i as int], gm(*this)));
@aftercall operator*= 0
let ghost r1 = rv;
@end lemma_gnhor(r0, r1, rv, *this, *c, i as int);
@fn polynomials::fpn_poly_t::set_coeff(int, const fp_polymod_t &)
@requires gnok(*old(this)), ge(*c, gm(*old(this))), pos <= gnmax()
@throws pos < 0
@onerr *final(this) == *old(this)
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*old(this)) ==> gnlead(*final(this)), forall|k: int| #[trigger] gcf(*final(this), k) == (if k == pos { fmr(*c) } else { gcf(*old(this), k) })
@entry
let ghost o = *this;
assert(ge(this.coeffs.v@[0], gm(*this))); lemma_fmok(this.coeffs.v@[0]); lemma_fmok(*c); lemma_gnz(*c); lemma_gpc0(gp(o));
@loop 0
@before lemma_gcells(temp.v@);
@inv 0 <= i <= o.degree + 1, *this == o, gnok(o), pos > o.degree, temp.st is Live, gcells(temp.v@), temp.v@.len() == pos + 1, forall|k: int| 0 <= k < i ==> gv(#[trigger] temp.v@[k], o.coeffs.v@[k])
@dec o.degree + 1 - i
@loop 1
@inv o.degree + 1 <= i <= pos, *this == o, gnok(o), pos > o.degree, temp.st is Live, gcells(temp.v@), temp.v@.len() == pos + 1, ge(zero, gm(o)), fmr(zero) == pz(), forall|k: int| 0 <= k <= o.degree ==> gv(#[trigger] temp.v@[k], o.coeffs.v@[k]), forall|k: int| o.degree < k < i ==> gv(#[trigger] temp.v@[k], zero)
@dec pos - i
@beforecall recompute_degree 0 lemma_gnset(*this, o, *c, pos as int);
@beforecall recompute_degree 1 lemma_gnset(*this, o, *c, pos as int);
@exit if !(pos >= o.degree && fmr(*c) == pz()) { lemma_gnset(*this, o, *c, pos as int); }
@fn polynomials::fpn_poly_t::promote()
@requires gnok(*old(this)), old(this).degree + 1 <= gnmax()
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*final(this)), final(this).degree <= old(this).degree + 1, forall|k: int| #[trigger] gcf(*final(this), k) == gcf(*old(this), k - 1)
@entry
let ghost o = *this;
@loop 0
@before lemma_gcells(this.coeffs.v@);
@inv 0 <= i <= o.degree + 1, this.degree == o.degree, gnok(o), o == *old(this), o.degree + 1 <= gnmax(), ocoeffs.v@ == o.coeffs.v@, ocoeffs.st is Live, gcells(this.coeffs.v@), this.coeffs.st is Live, this.coeffs.v@.len() == o.degree + 2, forall|k: int| 0 <= k < i ==> gv(#[trigger] this.coeffs.v@[k + 1], o.coeffs.v@[k])
@dec o.degree + 1 - i
@after assert(gv(this.coeffs.v@[0int + 1], o.coeffs.v@[0])); assert(ge(o.coeffs.v@[0], gm(o))); lemma_gnz(o.coeffs.v@[0]);
@beforecall recompute_degree 0 lemma_gnprom(*this, o);
@fn polynomials::fpn_poly_t::promote_and_add(const fp_polymod_t &)
@requires gnok(*old(this)), old(this).degree + 1 <= gnmax(), ge(*c0, gm(*old(this)))
@ensures gnok(*final(this)), ghm(*final(this), *old(this)), gnlead(*final(this)), forall|k: int| #[trigger] gcf(*final(this), k) == (if k == 0 { fmr(*c0) } else { gcf(*old(this), k - 1) })
@aftercall promote 0
let ghost w = *this;
@exit assert(ge(w.coeffs.v@[0], gm(w))); lemma_gnset(*this, w, *c0, 0);
@fn polynomials::fpn_poly_t::operator==(int) const
@requires gnok(*this)
@ensures ret == (this.degree == 0 && gcf(*this, 0) == pc(v as int))
@entry assert(ge(this.coeffs.v@[0], gm(*this)));
@fn polynomials::fpn_poly_t::operator!=(int) const
@requires gnok(*this)
@ensures ret == !(this.degree == 0 && gcf(*this, 0) == pc(v as int))
@fn polynomials::fpn_poly_t::cmp(int, const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@throws cmp < 20 || cmp > 25
@ensures ret == gncmpval(cmp as int, gncmp(*this, *that))
@loop 0
@inv this.degree == that.degree, gnok(*this), gnok(*that), ghm(*this, *that)
@xinv -1 <= i <= this.degree, direction == 0, gncmp(*this, *that) == gndir(*this, *that, i as int)
@lens -1 <= direction <= 1, direction as int == gncmp(*this, *that)
@dec i + 1
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); assert(ge(that.coeffs.v@[i as int], gm(*this)));
@fn polynomials::fpn_poly_t::operator==(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@ensures ret == (gncmp(*this, *that) == 0), ret == (this.degree == that.degree && (forall|k: int| gcf(*this, k) == #[trigger] gcf(*that, k)))
@exit lemma_gneq0(*this, *that);
@fn polynomials::fpn_poly_t::operator!=(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@ensures ret == (gncmp(*this, *that) != 0)
@fn polynomials::fpn_poly_t::operator<(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@ensures ret == (gncmp(*this, *that) < 0)
@fn polynomials::fpn_poly_t::operator>(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@ensures ret == (gncmp(*this, *that) > 0)
@fn polynomials::fpn_poly_t::operator<=(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@ensures ret == (gncmp(*this, *that) <= 0)
@fn polynomials::fpn_poly_t::operator>=(const fpn_poly_t &) const
@requires gnok(*this), gnok(*that), ghm(*this, *that)
@ensures ret == (gncmp(*this, *that) >= 0)
@fn polynomials::fpn_poly_t::operator*(const spffl::intmath::intmod_t &) const
@requires gnok(*this), mok(*a)
@throws gp(*this) != a.modulus
@ensures gnok(ret), ghm(ret, *this), gnlead(ret), ret.degree <= this.degree, forall|k: int| 0 <= k <= this.degree ==> #[trigger] gcf(ret, k) == pscale(gcf(*this, k), a.residue as int, gp(*this))
@entry assert(ge(this.coeffs.v@[0], gm(*this)));
@loop 0
@inv 0 <= i <= this.degree + 1, gnst(rv), rv.degree == this.degree, gnmuli(rv, *this, a.residue as int, i as int), gnfrom(rv, *this, i as int), i > 0 ==> gp(*this) == a.modulus
@top assert(ge(this.coeffs.v@[i as int], gm(*this))); assert(gv(rv.coeffs.v@[i as int], this.coeffs.v@[i as int]));
@dec this.degree + 1 - i
@beforecall recompute_degree 0 lemma_gndone(rv, *this);
