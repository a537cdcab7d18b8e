# ---- C13: F(2^n)[x], coefficient by coefficient over C09's residue classes
@fn polynomials::f2n_poly_t::f2n_poly_t()
@ensures ret.degree == 0, fnst(ret)
@aftercall f2_poly_t 1 lemma_c01(1i32); lemma_pc01(1); lemma_pcof1(1, f2p($ret.parts@));
@fn polynomials::f2n_poly_t::f2n_poly_t(const f2_polymod_t &)
@requires f2mok(*c0)
@ensures fnok(ret), ret.degree == 0, fv(ret.coeffs.v@[0], *c0), fnlead(ret), fnm(ret) == f2m(*c0)
@fn polynomials::f2n_poly_t::f2n_poly_t(const f2_polymod_t &, const f2_polymod_t &)
@requires f2mok(*c0), f2mok(*c1), f2m(*c0) == f2m(*c1)
@ensures fnok(ret), fnlead(ret), fnm(ret) == f2m(*c0), fcf(ret, 0) == f2r(*c0), fcf(ret, 1) == f2r(*c1), ret.degree <= 1
@fn polynomials::f2n_poly_t::f2n_poly_t(const f2_polymod_t &, const f2_polymod_t &, const f2_polymod_t &)
@requires f2mok(*c0), f2mok(*c1), f2mok(*c2), f2m(*c0) == f2m(*c1), f2m(*c0) == f2m(*c2)
@ensures fnok(ret), fnlead(ret), fnm(ret) == f2m(*c0), fcf(ret, 0) == f2r(*c0), fcf(ret, 1) == f2r(*c1), fcf(ret, 2) == f2r(*c2), ret.degree <= 2
@fn polynomials::f2n_poly_t::f2n_poly_t(const f2n_poly_t &)
@requires fnst(*that)
@ensures fnst(ret), fneq(ret, *that), fnok(*that) ==> fnlike(ret, *that)
@exit lemma_fncopy(ret, *that);
@loop 0
@inv 0 <= i <= that.degree + 1, fnst(this), fnst(*that), this.degree == that.degree, fnsame(this, *that, i as int)
@dec that.degree + 1 - i
@fn polynomials::f2n_poly_t::operator=(const f2n_poly_t &)
@requires fnst(*old(this)), fnst(*that)
@ensures fnst(*final(this)), fneq(*final(this), *that), fnok(*that) ==> fnlike(*final(this), *that)
@entry
let ghost b = *that;
@exit lemma_fncopy(*this, b);
@loop 0
@inv 0 <= i <= b.degree + 1, fnst(*this), fnst(*that), this.degree == b.degree, that.degree == b.degree, fnsame(*that, b, b.degree + 1), fnsame(*this, b, i as int)
@dec b.degree + 1 - i
@fn polynomials::f2n_poly_t::get_characteristic() const
@ensures ret == 2
@fn polynomials::f2n_poly_t::find_degree() const
@ensures ret == this.degree
@fn polynomials::f2n_poly_t::prime_subfield_element(int) const
@requires fnok(*this)
@ensures fnok(ret), fnm(ret) == fnm(*this), ret.degree == 0, fcf(ret, 0) == pc(v as int % 2), fnlead(ret)
@fn polynomials::f2n_poly_t::prime_subfield_element(int, const f2_poly_t &)
@requires f2msz(m.parts@), f2deg(m.parts@) >= 1
@ensures fnok(ret), fnm(ret) == f2p(m.parts@), ret.degree == 0, pisrem(pc(v as int % 2), f2p(m.parts@), fcf(ret, 0), 2), fnlead(ret)
@entry lemma_f2deg_nz(m.parts@);
@fn polynomials::f2n_poly_t::recompute_degree()
@requires fnok(*old(this))
@ensures fnok(*final(this)), fnlead(*final(this)), final(this).coeffs == old(this).coeffs, final(this).degree <= old(this).degree, forall|k: int| #[trigger] fcf(*final(this), k) == fcf(*old(this), k)
@entry
let ghost o = *this;
lemma_f2mok(this.coeffs.v@[0]);
@loop 0
@before lemma_fnzero(zero, o.coeffs.v@[0]);
@inv -1 <= i <= o.degree, fnok(o), o == *old(this), is_zero, this.degree == o.degree, this.coeffs == o.coeffs, fe(zero, fnm(o)), f2r(zero) == pz(), forall|k: int| i < k <= o.degree ==> f2r(#[trigger] o.coeffs.v@[k]) == pz()
@top assert(fe(o.coeffs.v@[i as int], fnm(o))); lemma_f2mok(o.coeffs.v@[i as int]); lemma_f2mok(zero);
@lens forall|k: int| this.degree < k <= o.degree ==> f2r(#[trigger] o.coeffs.v@[k]) == pz(), is_zero ==> (this.degree == o.degree && (forall|k: int| 0 <= k <= o.degree ==> f2r(#[trigger] o.coeffs.v@[k]) == pz())), !is_zero ==> (0 <= this.degree <= o.degree && f2r(o.coeffs.v@[this.degree as int]) != pz()), this.coeffs == o.coeffs
@dec i + 1
@fn polynomials::f2n_poly_t::operator+(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(ret), forall|k: int| pisrem(padd(fcf(*this, k), fcf(*that, k), 2), fnm(*this), #[trigger] fcf(ret, k), 2)
@entry lemma_fnz(this.coeffs.v@[0]);
@loop 0
@inv 0 <= i <= this.degree + 1, this.degree < that.degree, rv.degree == that.degree, fnst(rv), fnadd(rv, *this, *that, i as int)
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); assert(fe(that.coeffs.v@[i as int], fnm(*this)));
@dec this.degree + 1 - i
@loop 1
@inv this.degree + 1 <= i <= that.degree + 1, this.degree < that.degree, rv.degree == that.degree, fnst(rv), fnadd(rv, *this, *that, i as int)
@top assert(fe(that.coeffs.v@[i as int], fnm(*this))); lemma_fnz(that.coeffs.v@[i as int]);
@dec that.degree + 1 - i
@loop 2
@inv 0 <= i <= that.degree + 1, this.degree >= that.degree, rv.degree == this.degree, fnst(rv), fnadd(rv, *this, *that, i as int)
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); assert(fe(that.coeffs.v@[i as int], fnm(*this)));
@dec that.degree + 1 - i
@loop 3
@inv that.degree + 1 <= i <= this.degree + 1, this.degree >= that.degree, rv.degree == this.degree, fnst(rv), fnadd(rv, *this, *that, i as int)
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); lemma_fnz(this.coeffs.v@[i as int]);
@dec this.degree + 1 - i
@beforecall recompute_degree 0 assert(f2mres(rv.coeffs.v@[0], fnm(*this), padd(fcf(*this, 0), fcf(*that, 0), 2)));
@fn polynomials::f2n_poly_t::operator-(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(ret), forall|k: int| pisrem(psub(fcf(*this, k), fcf(*that, k), 2), fnm(*this), #[trigger] fcf(ret, k), 2)
@entry lemma_fnz(this.coeffs.v@[0]);
@loop 0
@inv 0 <= i <= this.degree + 1, this.degree < that.degree, rv.degree == that.degree, fnst(rv), fnsub(rv, *this, *that, i as int)
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); assert(fe(that.coeffs.v@[i as int], fnm(*this)));
@dec this.degree + 1 - i
@loop 1
@inv this.degree + 1 <= i <= that.degree + 1, this.degree < that.degree, rv.degree == that.degree, fnst(rv), fnsub(rv, *this, *that, i as int)
@top assert(fe(that.coeffs.v@[i as int], fnm(*this))); lemma_fnz(that.coeffs.v@[i as int]);
@dec that.degree + 1 - i
@loop 2
@inv 0 <= i <= that.degree + 1, this.degree >= that.degree, rv.degree == this.degree, fnst(rv), fnsub(rv, *this, *that, i as int)
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); assert(fe(that.coeffs.v@[i as int], fnm(*this)));
@dec that.degree + 1 - i
@loop 3
@inv that.degree + 1 <= i <= this.degree + 1, this.degree >= that.degree, rv.degree == this.degree, fnst(rv), fnsub(rv, *this, *that, i as int)
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); lemma_fnz(this.coeffs.v@[i as int]);
@dec this.degree + 1 - i
@beforecall recompute_degree 0 assert(f2mres(rv.coeffs.v@[0], fnm(*this), psub(fcf(*this, 0), fcf(*that, 0), 2)));
@fn polynomials::f2n_poly_t::operator-() const
@requires fnok(*this)
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(*this) ==> fnlead(ret), forall|k: int| #[trigger] fcf(ret, k) == fcf(*this, k)
@loop 0
@inv 0 <= i <= this.degree + 1, fnst(rv), rv.degree == this.degree, forall|k: int| 0 <= k < i ==> fe(#[trigger] rv.coeffs.v@[k], fnm(*this)) && f2r(rv.coeffs.v@[k]) == f2r(this.coeffs.v@[k])
@top assert(fe(this.coeffs.v@[i as int], fnm(*this)));
@dec this.degree + 1 - i
@after assert(fe(rv.coeffs.v@[0], fnm(*this)));
@fn polynomials::f2n_poly_t::operator*(const f2_polymod_t &) const
@requires fnok(*this), fe(*a, fnm(*this))
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(ret), ret.degree <= this.degree, forall|k: int| 0 <= k <= this.degree ==> pisrem(pmul(fcf(*this, k), f2r(*a), 2), fnm(*this), #[trigger] fcf(ret, k), 2)
@loop 0
@inv 0 <= i <= this.degree + 1, fnst(rv), rv.degree == this.degree, fnmuls(rv, *this, *a, i as int), fnfrom(rv, *this, i as int)
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); assert(fv(rv.coeffs.v@[i as int], this.coeffs.v@[i as int]));
@dec this.degree + 1 - i
@beforecall recompute_degree 0 assert(f2mres(rv.coeffs.v@[0], fnm(*this), pmul(fcf(*this, 0), f2r(*a), 2)));
@fn polynomials::f2n_poly_t::operator/(const f2_polymod_t &) const
@requires fnok(*this), fe(*a, fnm(*this))
@throws !f2unit(*a)
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(ret), ret.degree <= this.degree, forall|k: int| 0 <= k <= this.degree ==> pcong(pmul(#[trigger] fcf(ret, k), f2r(*a), 2), fcf(*this, k), fnm(*this), 2)
@loop 0
@inv 0 <= i <= this.degree + 1, fnst(rv), rv.degree == this.degree, fndivs(rv, *this, *a, i as int), fnfrom(rv, *this, i as int), i > 0 ==> f2unit(*a)
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); assert(fv(rv.coeffs.v@[i as int], this.coeffs.v@[i as int]));
@dec this.degree + 1 - i
@beforecall recompute_degree 0 assert(fe(rv.coeffs.v@[0], fnm(*this)));
@fn polynomials::f2n_poly_t::operator+(const f2_polymod_t &) const
@requires fnok(*this), fe(*a, fnm(*this))
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(ret), pisrem(padd(fcf(*this, 0), f2r(*a), 2), fnm(*this), fcf(ret, 0), 2), forall|k: int| k != 0 ==> #[trigger] fcf(ret, k) == fcf(*this, k)
@fn polynomials::f2n_poly_t::operator-(const f2_polymod_t &) const
@requires fnok(*this), fe(*a, fnm(*this))
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(ret), pisrem(psub(fcf(*this, 0), f2r(*a), 2), fnm(*this), fcf(ret, 0), 2), forall|k: int| k != 0 ==> #[trigger] fcf(ret, k) == fcf(*this, k)
@fn polynomials::f2n_poly_t::get_coeff(int) const
@requires fnok(*this)
@throws deg < 0
@ensures fe(ret, fnm(*this)), f2r(ret) == fcf(*this, deg as int)
@entry assert(fe(this.coeffs.v@[0], fnm(*this))); lemma_fnz(this.coeffs.v@[0]);
@aftercall operator- 0 lemma_fnzero($ret, this.coeffs.v@[0]);
@fn polynomials::f2n_poly_t::bounds_check(int) const
@throws deg < 0 || deg > this.degree
@fn polynomials::f2n_poly_t::operator*(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that), this.degree + that.degree <= fnmax()
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(ret), ret.degree <= this.degree + that.degree, forall|k: int| 0 <= k <= this.degree + that.degree ==> pisrem(msum(fnq(*this), fnq(*that), k, this.degree + 1, 2), fnm(*this), #[trigger] fcf(ret, k), 2)
@entry
let ghost m = fnm(*this);
assert(fe(this.coeffs.v@[0], m)); lemma_fnz(this.coeffs.v@[0]);
@loop 0
@before lemma_fnzero(zero, this.coeffs.v@[0]); lemma_fnz(zero);
@inv 0 <= k <= rv.degree + 1, fnst(rv), rv.degree == this.degree + that.degree, f2mres(zero, m, pz()), forall|j: int| 0 <= j < k ==> f2mres(#[trigger] rv.coeffs.v@[j], m, pz())
@dec rv.degree + 1 - k
@loop 1
@inv 0 <= i <= this.degree + 1, m == fnm(*this), fnok(*this), fnok(*that), fnm(*that) == m, fnst(rv), rv.degree == this.degree + that.degree, fnpart(rv, *this, *that, i as int, 0)
@dec this.degree + 1 - i
@end lemma_fnrow(rv, *this, *that, i as int);
@loop 2
@inv 0 <= j <= that.degree + 1, 0 <= i <= this.degree, m == fnm(*this), fnok(*this), fnok(*that), fnm(*that) == m, fnst(rv), rv.degree == this.degree + that.degree, fnpart(rv, *this, *that, i as int, j as int)
@dec that.degree + 1 - j
@top
let ghost pv = rv;
assert(fe(this.coeffs.v@[i as int], m)); assert(fe(that.coeffs.v@[j as int], m)); assert(f2mok(rv.coeffs.v@[i + j]));
@aftercall operator* 0
let ghost pr = $ret;
@end lemma_fncell(pv.coeffs.v@[i + j], this.coeffs.v@[i as int], that.coeffs.v@[j as int], pr, rv.coeffs.v@[i + j], fnq(*this), fnq(*that), i + j, i as int, m);
@beforecall recompute_degree 0 assert(f2mok(rv.coeffs.v@[0]));
@fn polynomials::f2n_poly_t::operator+=(const f2n_poly_t &)
@requires fnok(*old(this)), fnok(*that), fnm(*old(this)) == fnm(*that)
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*final(this)), forall|k: int| pisrem(padd(fcf(*old(this), k), fcf(*that, k), 2), fnm(*old(this)), #[trigger] fcf(*final(this), k), 2)
@fn polynomials::f2n_poly_t::operator-=(const f2n_poly_t &)
@requires fnok(*old(this)), fnok(*that), fnm(*old(this)) == fnm(*that)
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*final(this)), forall|k: int| pisrem(psub(fcf(*old(this), k), fcf(*that, k), 2), fnm(*old(this)), #[trigger] fcf(*final(this), k), 2)
@fn polynomials::f2n_poly_t::operator*=(const f2n_poly_t &)
@requires fnok(*old(this)), fnok(*that), fnm(*old(this)) == fnm(*that), old(this).degree + that.degree <= fnmax()
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*final(this)), final(this).degree <= old(this).degree + that.degree, forall|k: int| 0 <= k <= old(this).degree + that.degree ==> pisrem(msum(fnq(*old(this)), fnq(*that), k, old(this).degree + 1, 2), fnm(*old(this)), #[trigger] fcf(*final(this), k), 2)
@fn polynomials::f2n_poly_t::operator+=(const f2_polymod_t &)
@requires fnok(*old(this)), fe(*a, fnm(*old(this)))
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*final(this)), pisrem(padd(fcf(*old(this), 0), f2r(*a), 2), fnm(*old(this)), fcf(*final(this), 0), 2), forall|k: int| k != 0 ==> #[trigger] fcf(*final(this), k) == fcf(*old(this), k)
@fn polynomials::f2n_poly_t::operator-=(const f2_polymod_t &)
@requires fnok(*old(this)), fe(*a, fnm(*old(this)))
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*final(this)), pisrem(psub(fcf(*old(this), 0), f2r(*a), 2), fnm(*old(this)), fcf(*final(this), 0), 2), forall|k: int| k != 0 ==> #[trigger] fcf(*final(this), k) == fcf(*old(this), k)
@fn polynomials::f2n_poly_t::operator*=(const f2_polymod_t &)
@requires fnok(*old(this)), fe(*a, fnm(*old(this)))
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*final(this)), final(this).degree <= old(this).degree, forall|k: int| 0 <= k <= old(this).degree ==> pisrem(pmul(fcf(*old(this), k), f2r(*a), 2), fnm(*old(this)), #[trigger] fcf(*final(this), k), 2)
@fn polynomials::f2n_poly_t::deriv() const
@requires fnok(*this)
@ensures fnok(ret), fnm(ret) == fnm(*this), fnlead(ret), forall|k: int| k >= 0 ==> #[trigger] fcf(ret, k) == (if (k + 1) % 2 == 1 { fcf(*this, k + 1) } else { pz() })
@entry assert(fe(this.coeffs.v@[0], fnm(*this))); lemma_f2mok(this.coeffs.v@[0]); lemma_f2deg_nz(this.coeffs.v@[0].modulus.parts@);
@loop 0
@inv 1 <= i <= this.degree + 1, fnok(*this), f2p(m.parts@) == fnm(*this), f2msz(m.parts@), f2deg(m.parts@) >= 1, fnst(rv), rv.degree == this.degree - 1, rv.coeffs.v@.len() > this.degree, forall|k: int| 0 <= k < i - 1 ==> fe(#[trigger] rv.coeffs.v@[k], fnm(*this)) && f2r(rv.coeffs.v@[k]) == (if (k + 1) % 2 == 1 { fcf(*this, k + 1) } else { pz() })
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); lemma_pc01(i as int); lemma_c01(i); lemma_f2deg_nz(m.parts@);
@end lemma_fnderiv(this.coeffs.v@[i as int], rv.coeffs.v@[i - 1], i as int);
@dec this.degree + 1 - i
@beforecall recompute_degree 0 assert(fe(rv.coeffs.v@[0], fnm(*this)));
@fn polynomials::f2n_poly_t::eval(const f2_polymod_t &) const
@requires fnok(*this), fe(*c, fnm(*this))
@ensures f2mres(ret, fnm(*this), mhor(fnq(*this), f2r(*c), 0, this.degree as int, 2))
@entry assert(fe(this.coeffs.v@[this.degree as int], fnm(*this))); lemma_fnz(this.coeffs.v@[this.degree as int]);
@loop 0
@inv -1 <= i < this.degree, fnok(*this), fe(*c, fnm(*this)), f2mres(rv, fnm(*this), mhor(fnq(*this), f2r(*c), i + 1, this.degree as int, 2))
@dec i + 1
@top
let ghost r0 = rv;
assert(fe(this.coeffs.v@[i as int], fnm(*this)));
@aftercall operator*= 0
let ghost r1 = rv;
@end lemma_fnhor(r0, r1, rv, *this, *c, i as int);
@fn polynomials::f2n_poly_t::set_coeff(int, const f2_polymod_t &)
@requires fnok(*old(this)), fe(*c, fnm(*old(this))), pos <= fnmax()
@throws pos < 0
@onerr *final(this) == *old(this)
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*old(this)) ==> fnlead(*final(this)), forall|k: int| #[trigger] fcf(*final(this), k) == (if k == pos { f2r(*c) } else { fcf(*old(this), k) })
@entry
let ghost o = *this;
assert(fe(this.coeffs.v@[0], fnm(*this))); lemma_f2mok(this.coeffs.v@[0]); lemma_f2deg_nz(this.coeffs.v@[0].modulus.parts@); lemma_f2mok(*c); lemma_pc01(0);
@aftercall f2_polymod_t 0 lemma_fn0($ret, o.coeffs.v@[0]);
@loop 0
@inv 0 <= i <= o.degree + 1, *this == o, fnok(o), pos > o.degree, temp.st is Live, temp.v@.len() == pos + 1, forall|k: int| 0 <= k < i ==> fv(#[trigger] temp.v@[k], o.coeffs.v@[k])
@dec o.degree + 1 - i
@loop 1
@inv o.degree + 1 <= i <= pos, *this == o, fnok(o), pos > o.degree, temp.st is Live, temp.v@.len() == pos + 1, fe(zero, fnm(o)), f2r(zero) == pz(), forall|k: int| 0 <= k <= o.degree ==> fv(#[trigger] temp.v@[k], o.coeffs.v@[k]), forall|k: int| o.degree < k < i ==> fv(#[trigger] temp.v@[k], zero)
@dec pos - i
@beforecall recompute_degree 0 lemma_fnset(*this, o, *c, pos as int);
@beforecall recompute_degree 1 lemma_fnset(*this, o, *c, pos as int);
@exit if !(pos >= o.degree && f2r(*c) == pz()) { lemma_fnset(*this, o, *c, pos as int); }
@fn polynomials::f2n_poly_t::promote()
@requires fnok(*old(this)), old(this).degree + 1 <= fnmax()
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*final(this)), final(this).degree <= old(this).degree + 1, forall|k: int| #[trigger] fcf(*final(this), k) == fcf(*old(this), k - 1)
@entry
let ghost o = *this;
@loop 0
@inv 0 <= i <= o.degree + 1, this.degree == o.degree, fnok(o), o == *old(this), o.degree + 1 <= fnmax(), ocoeffs.v@ == o.coeffs.v@, ocoeffs.st is Live, this.coeffs.st is Live, this.coeffs.v@.len() == o.degree + 2, forall|k: int| 0 <= k < i ==> fv(#[trigger] this.coeffs.v@[k + 1], o.coeffs.v@[k])
@dec o.degree + 1 - i
@after assert(fv(this.coeffs.v@[0int + 1], o.coeffs.v@[0])); assert(fe(o.coeffs.v@[0], fnm(o))); lemma_fnz(o.coeffs.v@[0]);
@beforecall recompute_degree 0 lemma_fnprom(*this, o);
@fn polynomials::f2n_poly_t::promote_and_add(const f2_polymod_t &)
@requires fnok(*old(this)), old(this).degree + 1 <= fnmax(), fe(*c0, fnm(*old(this)))
@ensures fnok(*final(this)), fnm(*final(this)) == fnm(*old(this)), fnlead(*final(this)), forall|k: int| #[trigger] fcf(*final(this), k) == (if k == 0 { f2r(*c0) } else { fcf(*old(this), k - 1) })
@aftercall promote 0
let ghost w = *this;
@exit assert(fe(w.coeffs.v@[0], fnm(w))); lemma_fnset(*this, w, *c0, 0);
@fn polynomials::f2n_poly_t::operator==(int) const
@requires fnok(*this)
@ensures ret == (this.degree == 0 && fcf(*this, 0) == pc(v as int % 2))
@entry assert(fe(this.coeffs.v@[0], fnm(*this)));
@fn polynomials::f2n_poly_t::operator!=(int) const
@requires fnok(*this)
@ensures ret == !(this.degree == 0 && fcf(*this, 0) == pc(v as int % 2))
@fn polynomials::f2n_poly_t::cmp(int, const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@throws cmp < 20 || cmp > 25
@ensures ret == fncmpval(cmp as int, fncmp(*this, *that))
@loop 0
@inv this.degree == that.degree, fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@xinv -1 <= i <= this.degree, direction == 0, fncmp(*this, *that) == fndir(*this, *that, i as int)
@lens -1 <= direction <= 1, direction as int == fncmp(*this, *that)
@dec i + 1
@top assert(fe(this.coeffs.v@[i as int], fnm(*this))); assert(fe(that.coeffs.v@[i as int], fnm(*this)));
@fn polynomials::f2n_poly_t::operator==(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@ensures ret == (fncmp(*this, *that) == 0), ret == (this.degree == that.degree && (forall|k: int| fcf(*this, k) == #[trigger] fcf(*that, k)))
@exit lemma_fneq0(*this, *that);
@fn polynomials::f2n_poly_t::operator!=(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@ensures ret == (fncmp(*this, *that) != 0)
@fn polynomials::f2n_poly_t::operator<(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@ensures ret == (fncmp(*this, *that) < 0)
@fn polynomials::f2n_poly_t::operator>(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@ensures ret == (fncmp(*this, *that) > 0)
@fn polynomials::f2n_poly_t::operator<=(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@ensures ret == (fncmp(*this, *that) <= 0)
@fn polynomials::f2n_poly_t::operator>=(const f2n_poly_t &) const
@requires fnok(*this), fnok(*that), fnm(*this) == fnm(*that)
@ensures ret == (fncmp(*this, *that) >= 0)
