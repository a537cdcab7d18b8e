# ---- C10/C11: polynomials over Z/p.  fpis(x, p, a): x represents a in Fp[x], leading coefficient nonzero.
@fn polynomials::fp_poly_t::fp_poly_t()
@ensures fpdef(ret)
@fn polynomials::fp_poly_t::recompute_degree()
@requires fpw(*old(this))
@ensures fpis(*final(this), fpm(*old(this)), fpp(*old(this))), final(this).degree <= old(this).degree, final(this).coeffs == old(this).coeffs
@entry
let ghost o = *this;
lemma_fp(*this); lemma_msub0(this.coeffs.v@[0]); assert(elok(this.coeffs.v@[0], fpm(*this)));
@loop 0
@inv fpw(*this), *this == o, o == *old(this), elis(zero, fpm(o), 0)
@xinv is_zero, -1 <= i <= o.degree, forall|k: int| i < k <= o.degree ==> (#[trigger] this.coeffs.v@[k]).residue == 0
@lens this.coeffs == o.coeffs, 0 <= this.degree <= o.degree, forall|k: int| this.degree < k <= o.degree ==> (#[trigger] this.coeffs.v@[k]).residue == 0, is_zero ==> this.degree == o.degree && (forall|k: int| 0 <= k <= o.degree ==> (#[trigger] this.coeffs.v@[k]).residue == 0), !is_zero ==> this.coeffs.v@[this.degree as int].residue != 0
@dec i + 1
@top assert(elok(this.coeffs.v@[i as int], fpm(o)));
@exit
assert forall|k: int| this.degree < k <= o.degree implies (#[trigger] this.coeffs.v@[k]).residue == 0 by { }
lemma_fptrunc(this.coeffs.v@, this.degree as int, o.degree as int);
assert forall|k: int| 0 <= k <= this.degree implies #[trigger] elok(this.coeffs.v@[k], fpm(*this)) by { assert(elok(o.coeffs.v@[k], fpm(o))); }
@fn polynomials::fp_poly_t::fp_poly_t(const fp_poly_t &)
@requires fpst(*that)
@ensures fpst(ret), ret.coeffs.v@.len() == that.degree + 1, forall|k: int| 0 <= k <= that.degree ==> #[trigger] ret.coeffs.v@[k] == that.coeffs.v@[k], ret.degree == that.degree, fpp(ret) == fpp(*that), fpm(ret) == fpm(*that), fpw(*that) ==> fpw(ret), fpok(*that) ==> fpok(ret), fpdef(*that) ==> fpdef(ret)
@loop 0
@inv 0 <= i <= that.degree + 1, this.degree == that.degree, fpst(this), fpst(*that), this.coeffs.v@.len() == that.degree + 1, forall|k: int| 0 <= k < i ==> #[trigger] this.coeffs.v@[k] == that.coeffs.v@[k]
@dec that.degree + 1 - i
@exit lemma_fpcopy(ret, *that);
@fn polynomials::fp_poly_t::operator=(const fp_poly_t &)
@requires fpst(*old(this)), fpst(*that)
@ensures fpst(*final(this)), final(this).degree == that.degree, fpp(*final(this)) == fpp(*that), fpm(*final(this)) == fpm(*that), fpw(*that) ==> fpw(*final(this)), fpok(*that) ==> fpok(*final(this)), fpdef(*that) ==> fpdef(*final(this))
@loop 0
@inv 0 <= i <= that.degree + 1, this.degree == that.degree, fpst(*this), fpst(*that), forall|k: int| 0 <= k < i ==> #[trigger] this.coeffs.v@[k] == that.coeffs.v@[k]
@dec that.degree + 1 - i
@exit lemma_fpcopy(*this, *that);
@fn polynomials::fp_poly_t::fp_poly_t(const spffl::intmath::intmod_t &)
@requires mset(*c0), c0.modulus >= 2
@ensures fpis(ret, c0.modulus as int, pcs(0, 0, c0.residue as int)), ret.degree <= 0
@beforecall recompute_degree 0 lemma_pcs_can(c0.modulus as int, 0, 0, c0.residue as int); lemma_fpmk(this, c0.modulus as int, pcs(0, 0, c0.residue as int));
@fn polynomials::fp_poly_t::fp_poly_t(const spffl::intmath::intmod_t &, const spffl::intmath::intmod_t &)
@requires mset(*c0), mset(*c1), c0.modulus >= 2, c1.modulus == c0.modulus
@ensures fpis(ret, c0.modulus as int, pcs(0, c1.residue as int, c0.residue as int)), ret.degree <= 1
@beforecall recompute_degree 0 lemma_pcs_can(c0.modulus as int, 0, c1.residue as int, c0.residue as int); lemma_fpmk(this, c0.modulus as int, pcs(0, c1.residue as int, c0.residue as int));
@fn polynomials::fp_poly_t::fp_poly_t(const spffl::intmath::intmod_t &, const spffl::intmath::intmod_t &, const spffl::intmath::intmod_t &)
@requires mset(*c0), mset(*c1), mset(*c2), c0.modulus >= 2, c1.modulus == c0.modulus, c2.modulus == c0.modulus
@ensures fpis(ret, c0.modulus as int, pcs(c2.residue as int, c1.residue as int, c0.residue as int)), ret.degree <= 2
@beforecall recompute_degree 0 lemma_pcs_can(c0.modulus as int, c2.residue as int, c1.residue as int, c0.residue as int); lemma_fpmk(this, c0.modulus as int, pcs(c2.residue as int, c1.residue as int, c0.residue as int));
@fn polynomials::fp_poly_t::fp_poly_t(int, int)
@requires m != 1
@throws m <= 0
@ensures fpis(ret, m as int, pcs(0, 0, c0 as int % m as int)), ret.degree <= 0
@beforecall recompute_degree 0 lemma_pcs_can(m as int, 0, 0, c0 as int % m as int); lemma_fpmk(this, m as int, pcs(0, 0, c0 as int % m as int));
@fn polynomials::fp_poly_t::fp_poly_t(int, int, int)
@requires m != 1
@throws m <= 0
@ensures fpis(ret, m as int, pcs(0, c1 as int % m as int, c0 as int % m as int)), ret.degree <= 1
@beforecall recompute_degree 0 lemma_pcs_can(m as int, 0, c1 as int % m as int, c0 as int % m as int); lemma_fpmk(this, m as int, pcs(0, c1 as int % m as int, c0 as int % m as int));
@fn polynomials::fp_poly_t::fp_poly_t(int, int, int, int)
@requires m != 1
@throws m <= 0
@ensures fpis(ret, m as int, pcs(c2 as int % m as int, c1 as int % m as int, c0 as int % m as int)), ret.degree <= 2
@beforecall recompute_degree 0 lemma_pcs_can(m as int, c2 as int % m as int, c1 as int % m as int, c0 as int % m as int); lemma_fpmk(this, m as int, pcs(c2 as int % m as int, c1 as int % m as int, c0 as int % m as int));
@fn polynomials::fp_poly_t::from_base_rep(int, int)
@requires b >= 0, m >= 2
@ensures fpis(ret, m as int, pdig(b as int, m as int))
@entry lemma_pdig0(b as int, m as int);
@loop 0
@inv -1 <= rv.degree < 31, m >= 2, b >= 0, b == b__in, temp >= 0, temp as int == b as int / pw(m as int, (rv.degree + 1) as nat), rv.degree >= 0 ==> pw(m as int, rv.degree as nat) <= b, b > 0 && rv.degree < 0 ==> temp > 0
@dec temp
@top lemma_pdigstep(b as int, m as int, rv.degree + 1);
@after lemma_pdigend(b as int, m as int, rv.degree as int);
@loop 1
@inv 0 <= i <= rv.degree + 1, 0 <= rv.degree < 31, m >= 2, b >= 0, b as int == b__in as int / pw(m as int, i as nat), fpst(rv), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], m as int, pdig(b__in as int, m as int)(k)), b__in > 0 || rv.degree == 0, b__in > 0 ==> pw(m as int, rv.degree as nat) <= b__in && b__in < pw(m as int, (rv.degree + 1) as nat), b__in == 0 ==> rv.degree == 0
@dec rv.degree + 1 - i
@top lemma_trem_pos(b as int, m as int); lemma_mod_bound(b as int, m as int); lemma_small_mod((b as int % m as int) as nat, m as nat); lemma_pdigdiv(b__in as int, m as int, i as int);
@exit lemma_pdigfin(b__in as int, m as int, ret.degree as int); lemma_fpmk(ret, m as int, pdig(b__in as int, m as int));
@fn polynomials::fp_poly_t::prime_subfield_element(int) const
@requires fpok(*this)
@ensures fpis(ret, fpm(*this), pc(v as int % fpm(*this))), ret.degree == 0
@entry lemma_fp(*this); assert(elok(this.coeffs.v@[0], fpm(*this)));
@exit lemma_pcs_pc(v as int % fpm(*this));
@fn polynomials::fp_poly_t::get_characteristic() const
@requires fpok(*this)
@ensures ret as int == fpm(*this)
@fn polynomials::fp_poly_t::operator+(const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws fpm(*this) != fpm(*that)
@ensures fpis(ret, fpm(*this), padd(fpp(*this), fpp(*that), fpm(*this))), ret.degree <= (if this.degree > that.degree { this.degree } else { that.degree })
@entry
let ghost p = fpm(*this);
lemma_fp(*this); lemma_fp(*that); if p == fpm(*that) { lemma_padd_can(fpp(*this), fpp(*that), p); }
@loop 0
@inv 0 <= i <= this.degree + 1, fpok(*this), fpok(*that), this.degree < that.degree, rv.degree == that.degree, fpst(rv), p == fpm(*this), i > 0 ==> p == fpm(*that), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, padd(fpp(*this), fpp(*that), p)(k))
@dec this.degree + 1 - i
@top lemma_fp(*this); lemma_fp(*that); lemma_fpmod(fpp(*this)(i as int), fpp(*that)(i as int), p); lemma_fpmod(fpp(*that)(i as int), 0, p);
@loop 1
@inv this.degree + 1 <= i <= that.degree + 1, fpok(*this), fpok(*that), this.degree < that.degree, rv.degree == that.degree, fpst(rv), p == fpm(*this), p == fpm(*that), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, padd(fpp(*this), fpp(*that), p)(k))
@dec that.degree + 1 - i
@top lemma_fp(*this); lemma_fp(*that); lemma_fpmod(fpp(*this)(i as int), fpp(*that)(i as int), p); lemma_fpmod(fpp(*that)(i as int), 0, p);
@loop 2
@inv 0 <= i <= that.degree + 1, fpok(*this), fpok(*that), that.degree <= this.degree, rv.degree == this.degree, fpst(rv), p == fpm(*this), i > 0 ==> p == fpm(*that), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, padd(fpp(*this), fpp(*that), p)(k))
@dec that.degree + 1 - i
@top lemma_fp(*this); lemma_fp(*that); lemma_fpmod(fpp(*this)(i as int), fpp(*that)(i as int), p); lemma_fpmod(fpp(*that)(i as int), 0, p);
@loop 3
@inv that.degree + 1 <= i <= this.degree + 1, fpok(*this), fpok(*that), that.degree <= this.degree, rv.degree == this.degree, fpst(rv), p == fpm(*this), p == fpm(*that), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, padd(fpp(*this), fpp(*that), p)(k))
@dec this.degree + 1 - i
@top lemma_fp(*this); lemma_fp(*that); lemma_fpmod(fpp(*this)(i as int), fpp(*that)(i as int), p); lemma_fpmod(fpp(*that)(i as int), 0, p);
@beforecall recompute_degree 0 lemma_fp(*this); lemma_fp(*that); lemma_fpdle(fpp(*this), fpp(*that), this.degree as int, that.degree as int, p); lemma_fpmk(rv, p, padd(fpp(*this), fpp(*that), p));
@fn polynomials::fp_poly_t::operator-(const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws fpm(*this) != fpm(*that)
@ensures fpis(ret, fpm(*this), psub(fpp(*this), fpp(*that), fpm(*this))), ret.degree <= (if this.degree > that.degree { this.degree } else { that.degree })
@entry
let ghost p = fpm(*this);
lemma_fp(*this); lemma_fp(*that); if p == fpm(*that) { lemma_padd_can(fpp(*this), fpp(*that), p); }
@loop 0
@inv 0 <= i <= this.degree + 1, fpok(*this), fpok(*that), this.degree < that.degree, rv.degree == that.degree, fpst(rv), p == fpm(*this), i > 0 ==> p == fpm(*that), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, psub(fpp(*this), fpp(*that), p)(k))
@dec this.degree + 1 - i
@top lemma_fp(*this); lemma_fp(*that); lemma_fpmod(fpp(*this)(i as int), fpp(*that)(i as int), p); lemma_fpmod(fpp(*that)(i as int), 0, p);
@loop 1
@inv this.degree + 1 <= i <= that.degree + 1, fpok(*this), fpok(*that), this.degree < that.degree, rv.degree == that.degree, fpst(rv), p == fpm(*this), p == fpm(*that), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, psub(fpp(*this), fpp(*that), p)(k))
@dec that.degree + 1 - i
@top lemma_fp(*this); lemma_fp(*that); lemma_fpmod(fpp(*this)(i as int), fpp(*that)(i as int), p); lemma_fpmod(fpp(*that)(i as int), 0, p);
@loop 2
@inv 0 <= i <= that.degree + 1, fpok(*this), fpok(*that), that.degree <= this.degree, rv.degree == this.degree, fpst(rv), p == fpm(*this), i > 0 ==> p == fpm(*that), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, psub(fpp(*this), fpp(*that), p)(k))
@dec that.degree + 1 - i
@top lemma_fp(*this); lemma_fp(*that); lemma_fpmod(fpp(*this)(i as int), fpp(*that)(i as int), p); lemma_fpmod(fpp(*that)(i as int), 0, p);
@loop 3
@inv that.degree + 1 <= i <= this.degree + 1, fpok(*this), fpok(*that), that.degree <= this.degree, rv.degree == this.degree, fpst(rv), p == fpm(*this), p == fpm(*that), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, psub(fpp(*this), fpp(*that), p)(k))
@dec this.degree + 1 - i
@top lemma_fp(*this); lemma_fp(*that); lemma_fpmod(fpp(*this)(i as int), fpp(*that)(i as int), p); lemma_fpmod(fpp(*that)(i as int), 0, p);
@beforecall recompute_degree 0 lemma_fp(*this); lemma_fp(*that); lemma_fpdle(fpp(*this), fpp(*that), this.degree as int, that.degree as int, p); lemma_fpmk(rv, p, psub(fpp(*this), fpp(*that), p));
@fn polynomials::fp_poly_t::operator-() const
@requires fpok(*this)
@ensures fpis(ret, fpm(*this), pneg(fpp(*this), fpm(*this))), ret.degree == this.degree
@entry
let ghost p = fpm(*this);
lemma_fp(*this); lemma_padd_can(fpp(*this), fpp(*this), p);
@loop 0
@inv 0 <= i <= this.degree + 1, fpok(*this), rv.degree == this.degree, fpst(rv), p == fpm(*this), forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, pneg(fpp(*this), p)(k))
@dec this.degree + 1 - i
@top lemma_fp(*this);
@exit lemma_fp(*this); lemma_negnz(fpp(*this)(this.degree as int), p); lemma_fpdle(fpp(*this), fpp(*this), this.degree as int, this.degree as int, p); lemma_fpmk(ret, p, pneg(fpp(*this), p));
@fn polynomials::fp_poly_t::operator*(const fp_poly_t &) const
@requires fpok(*this), fpok(*that), this.degree + that.degree < fpmax()
@throws fpm(*this) != fpm(*that)
@ensures fpis(ret, fpm(*this), pmul(fpp(*this), fpp(*that), fpm(*this))), ret.degree <= this.degree + that.degree
@entry
let ghost p = fpm(*this);
lemma_fp(*this); lemma_fp(*that); lemma_msub0(this.coeffs.v@[0]);
@loop 0
@inv 0 <= k <= rv.degree + 1, elis(zero, p, 0), rv.degree == this.degree + that.degree, fpst(rv), p == fpm(*this), forall|j: int| 0 <= j < k ==> elis(#[trigger] rv.coeffs.v@[j], p, 0)
@dec rv.degree + 1 - k
@after lemma_fp(*this); lemma_fp(*that); lemma_fpmul0(fpp(*this), fpp(*that), p);
@loop 1
@inv 0 <= i <= this.degree + 1, fpok(*this), fpok(*that), rv.degree == this.degree + that.degree, fpst(rv), p == fpm(*this), i > 0 ==> p == fpm(*that), forall|k: int| 0 <= k <= rv.degree ==> elis(#[trigger] rv.coeffs.v@[k], p, pmul(ptr(fpp(*this), i as int), fpp(*that), p)(k))
@dec this.degree + 1 - i
@top
let ghost s = pmul(ptr(fpp(*this), i as int), fpp(*that), p);
lemma_fp(*this); lemma_fp(*that); lemma_pmul_can(ptr(fpp(*this), i as int), fpp(*that), p);
@end lemma_fp(*this); lemma_fp(*that); lemma_fpmulnext(fpp(*this), fpp(*that), i as int, that.degree as int, p);
@loop 2
@inv 0 <= j <= that.degree + 1, 0 <= i <= this.degree, fpok(*this), fpok(*that), rv.degree == this.degree + that.degree, rv.degree < fpmax(), fpst(rv), p == fpm(*this), i > 0 || j > 0 ==> p == fpm(*that), forall|k: int| 0 <= #[trigger] s(k) < p, forall|k: int| 0 <= k <= rv.degree ==> elis(#[trigger] rv.coeffs.v@[k], p, if i <= k < i + j { (s(k) + mul(fpp(*this)(i as int), fpp(*that)(k - i)) % p) % p } else { s(k) })
@dec that.degree + 1 - j
@top lemma_fp(*this); lemma_fp(*that); assert(0 <= s(i + j) < p);
@beforecall recompute_degree 0 lemma_fp(*this); lemma_fp(*that); lemma_fpmulend(fpp(*this), fpp(*that), this.degree as int, p); lemma_pmul_can(fpp(*this), fpp(*that), p); lemma_pmul_dle(fpp(*this), fpp(*that), this.degree as int, that.degree as int, p); lemma_fpmk(rv, p, pmul(fpp(*this), fpp(*that), p));
@fn polynomials::fp_poly_t::operator+=(const fp_poly_t &)
@requires fpok(*old(this)), fpok(*that)
@throws fpm(*old(this)) != fpm(*that)
@ensures fpis(*final(this), fpm(*old(this)), padd(fpp(*old(this)), fpp(*that), fpm(*old(this)))), final(this).degree <= (if old(this).degree > that.degree { old(this).degree } else { that.degree })
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::operator-=(const fp_poly_t &)
@requires fpok(*old(this)), fpok(*that)
@throws fpm(*old(this)) != fpm(*that)
@ensures fpis(*final(this), fpm(*old(this)), psub(fpp(*old(this)), fpp(*that), fpm(*old(this)))), final(this).degree <= (if old(this).degree > that.degree { old(this).degree } else { that.degree })
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::operator*=(const fp_poly_t &)
@requires fpok(*old(this)), fpok(*that), old(this).degree + that.degree < fpmax()
@throws fpm(*old(this)) != fpm(*that)
@ensures fpis(*final(this), fpm(*old(this)), pmul(fpp(*old(this)), fpp(*that), fpm(*old(this)))), final(this).degree <= old(this).degree + that.degree
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::operator+(const spffl::intmath::intmod_t &) const
@requires fpok(*this), mok(*a)
@throws fpm(*this) != a.modulus
@ensures fpis(ret, fpm(*this), padd(fpp(*this), pc(a.residue as int), fpm(*this))), ret.degree <= this.degree
@entry
let ghost p = fpm(*this);
lemma_fp(*this); assert(elok(this.coeffs.v@[0], p));
@beforecall recompute_degree 0 lemma_fp(*this); lemma_fpsc(*this, rv, a.residue as int, p); lemma_fpmk(rv, p, padd(fpp(*this), pc(a.residue as int), p));
@fn polynomials::fp_poly_t::operator+=(const spffl::intmath::intmod_t &)
@requires fpok(*old(this)), mok(*a)
@throws fpm(*old(this)) != a.modulus
@ensures fpis(*final(this), fpm(*old(this)), padd(fpp(*old(this)), pc(a.residue as int), fpm(*old(this)))), final(this).degree <= old(this).degree
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::operator-(const spffl::intmath::intmod_t &) const
@requires fpok(*this), mok(*a)
@throws fpm(*this) != a.modulus
@ensures fpis(ret, fpm(*this), psub(fpp(*this), pc(a.residue as int), fpm(*this))), ret.degree <= this.degree
@entry
let ghost p = fpm(*this);
lemma_fp(*this); assert(elok(this.coeffs.v@[0], p));
@beforecall recompute_degree 0 lemma_fp(*this); lemma_fpsc(*this, rv, a.residue as int, p); lemma_fpmk(rv, p, psub(fpp(*this), pc(a.residue as int), p));
@fn polynomials::fp_poly_t::operator-=(const spffl::intmath::intmod_t &)
@requires fpok(*old(this)), mok(*a)
@throws fpm(*old(this)) != a.modulus
@ensures fpis(*final(this), fpm(*old(this)), psub(fpp(*old(this)), pc(a.residue as int), fpm(*old(this)))), final(this).degree <= old(this).degree
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::operator*(const spffl::intmath::intmod_t &) const
@requires fpok(*this), mok(*a)
@throws fpm(*this) != a.modulus
@ensures fpis(ret, fpm(*this), pscale(fpp(*this), a.residue as int, fpm(*this))), ret.degree <= this.degree
@entry
let ghost p = fpm(*this);
lemma_fp(*this);
@loop 0
@before assert(elok(this.coeffs.v@[0], p)); assert(elok(rv.coeffs.v@[0], p));
@inv 0 <= i <= rv.degree + 1, fpok(*this), mok(*a), rv.degree == this.degree, fpst(rv), p == fpm(*this), i > 0 ==> p == a.modulus, forall|k: int| 0 <= k < i ==> elis(#[trigger] rv.coeffs.v@[k], p, pscale(fpp(*this), a.residue as int, p)(k)), forall|k: int| i <= k <= rv.degree ==> elis(#[trigger] rv.coeffs.v@[k], p, fpp(*this)(k))
@dec rv.degree + 1 - i
@top lemma_fp(*this); assert(elis(rv.coeffs.v@[i as int], p, fpp(*this)(i as int))); lemma_mulc(fpp(*this)(i as int), a.residue as int);
@beforecall recompute_degree 0 lemma_fp(*this); lemma_pscale_can(fpp(*this), a.residue as int, p, this.degree as int); lemma_fpmk(rv, p, pscale(fpp(*this), a.residue as int, p));
@fn polynomials::fp_poly_t::operator*=(const spffl::intmath::intmod_t &)
@requires fpok(*old(this)), mok(*a)
@throws fpm(*old(this)) != a.modulus
@ensures fpis(*final(this), fpm(*old(this)), pscale(fpp(*old(this)), a.residue as int, fpm(*old(this)))), final(this).degree <= old(this).degree
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::operator/(const spffl::intmath::intmod_t &) const
@requires fpok(*this), mok2(*a)
@throws fpm(*this) != a.modulus || !coprime(a.modulus as int, a.residue as int)
@ensures fpok(ret), fpm(ret) == fpm(*this), fpp(*this) == pscale(fpp(ret), a.residue as int, fpm(*this)), ret.degree <= this.degree
@entry
let ghost p = fpm(*this);
lemma_fp(*this);
@loop 0
@before assert(elok(this.coeffs.v@[0], p)); assert(elok(rv.coeffs.v@[0], p));
@inv 0 <= i <= rv.degree + 1, fpok(*this), mok2(*a), rv.degree == this.degree, fpst(rv), p == fpm(*this), i > 0 ==> p == a.modulus && coprime(a.modulus as int, a.residue as int), forall|k: int| 0 <= k < i ==> elok(#[trigger] rv.coeffs.v@[k], p) && mquot(rv.coeffs.v@[k].residue as int, fpp(*this)(k), a.residue as int, p), forall|k: int| i <= k <= rv.degree ==> elis(#[trigger] rv.coeffs.v@[k], p, fpp(*this)(k))
@dec rv.degree + 1 - i
@top lemma_fp(*this); assert(elis(rv.coeffs.v@[i as int], p, fpp(*this)(i as int)));
@beforecall recompute_degree 0 lemma_fp(*this); assert(elok(rv.coeffs.v@[0], p)); assert(fpw(rv)); lemma_fp(rv); lemma_fpquot(*this, rv, a.residue as int, p);
@fn polynomials::fp_poly_t::operator/=(const spffl::intmath::intmod_t &)
@requires fpok(*old(this)), mok2(*a)
@throws fpm(*old(this)) != a.modulus || !coprime(a.modulus as int, a.residue as int)
@ensures fpok(*final(this)), fpm(*final(this)) == fpm(*old(this)), fpp(*old(this)) == pscale(fpp(*final(this)), a.residue as int, fpm(*old(this))), final(this).degree <= old(this).degree
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::find_degree() const
@requires fpok(*this)
@ensures ret == this.degree, isdeg(fpp(*this), ret as int)
@entry lemma_fp(*this);
@fn polynomials::fp_poly_t::bounds_check(int) const
@throws deg < 0 || deg > this.degree
@fn polynomials::fp_poly_t::get_coeff(int) const
@requires fpw(*this)
@throws deg < 0
@ensures elis(ret, fpm(*this), fpp(*this)(deg as int))
@entry lemma_fp(*this); assert(elok(this.coeffs.v@[0], fpm(*this))); lemma_msub0(this.coeffs.v@[0]); if 0 <= deg <= this.degree { assert(elok(this.coeffs.v@[deg as int], fpm(*this))); }
@fn polynomials::fp_poly_t::set_coeff(int, const spffl::intmath::intmod_t &)
@requires pos < fpmax(), mset(*c), (fpw(*old(this)) && c.modulus == fpm(*old(this))) || (fpdef(*old(this)) && c.modulus >= 2)
@throws pos < 0
@ensures fpst(*final(this)), fpw(*old(this)) ==> fpw(*final(this)) && fpm(*final(this)) == fpm(*old(this)) && fpp(*final(this)) == pset(fpp(*old(this)), pos as int, c.residue as int) && final(this).degree <= (if old(this).degree > pos { old(this).degree } else { pos }), fpok(*old(this)) || (fpw(*old(this)) && pos > old(this).degree) ==> fpok(*final(this)), fpdef(*old(this)) ==> final(this).degree == pos && final(this).coeffs.v@[pos as int] == *c
@onerr *final(this) == *old(this)
@entry
let ghost o = *this;
let ghost m0 = fpm(*this);
if fpw(*this) { lemma_fp(*this); } else { assert(elok(this.coeffs.v@[0], 1)); } assert(elok(this.coeffs.v@[0], m0)); lemma_small_mod(0, m0 as nat);
@loop 0
@inv 0 <= i <= this.degree + 1, *this == o, fpst(o), temp.v@.len() == pos + 1, temp.st is Live, pos > o.degree, pos < fpmax(), forall|k: int| 0 <= k < i ==> #[trigger] temp.v@[k] == o.coeffs.v@[k]
@dec this.degree + 1 - i
@loop 1
@inv this.degree + 1 <= i <= pos, *this == o, fpst(o), temp.v@.len() == pos + 1, temp.st is Live, pos > o.degree, pos < fpmax(), elis(zero, m0, 0), forall|k: int| 0 <= k <= o.degree ==> #[trigger] temp.v@[k] == o.coeffs.v@[k], forall|k: int| o.degree < k < i ==> elis(#[trigger] temp.v@[k], m0, 0)
@dec pos - i
@beforecall recompute_degree 0 if fpw(o) { lemma_fpset(*this, o, pos as int, *c); }
@beforecall recompute_degree 1 if fpw(o) { lemma_fpset(*this, o, pos as int, *c); }
@exit if fpw(o) && this.degree == (if o.degree > pos { o.degree } else { pos }) && fpp(*this) != pset(fpp(o), pos as int, c.residue as int) { lemma_fpset(*this, o, pos as int, *c); }
@fn polynomials::fp_poly_t::exp(int) const
@requires fpok(*this), e <= 0 || 2 * this.degree * e + 2 < fpmax()
@throws (fpp(*this) == pz() && e <= 0) || (fpp(*this) != pz() && e < 0 && (this.degree > 0 || e == i32::MIN || !coprime(fpm(*this), fpp(*this)(0))))
@ensures fpok(ret), fpm(ret) == fpm(*this), e >= 0 ==> fpp(ret) == ppow(fpp(*this), e as nat, fpm(*this)) && (ret.degree <= this.degree * e || ret.degree == 0), e < 0 ==> ret.degree == 0 && is_inv(pw(fpp(*this)(0), (-e) as nat), fpp(ret)(0), fpm(*this))
@entry
let ghost p = fpm(*this);
let ghost nn = this.degree * e as int;
lemma_fp(*this); assert(elok(this.coeffs.v@[0], p)); lemma_fpzero(*this); lemma_ppow_pc(fpp(*this)(0), if e >= 0 { e as nat } else { 0 }, p); lemma_ppow_pz(if e >= 0 { e as nat } else { 0 }, p); lemma_small_mod(0, p as nat); lemma_small_mod(1, p as nat); lemma_pc0(); if this.degree == 0 { lemma_deg0(fpp(*this)); }
@exit lemma_fp(*this); assert(elok(this.coeffs.v@[0], p)); if this.degree == 0 { lemma_deg0(fpp(*this)); if fpp(*this) != pz() { lemma_pcs_pc(ret.coeffs.v@[0].residue as int); lemma_fp(ret); } }
@loop 0
@before lemma_fpexp0(nn, this.degree as int, e as int); lemma_ppow_can(fpp(*this), e as nat, p); lemma_pmul_one(ppow(fpp(*this), e as nat, p), p);
@inv 0 <= e <= e__in, fpok(rv), fpok(xp), fpm(rv) == p, fpm(xp) == p, p == fpm(*this), p >= 2, pmul(fpp(rv), ppow(fpp(xp), e as nat, p), p) == ppow(fpp(*this), e__in as nat, p), fpexpinv(rv.degree as int, xp.degree as int, e as int, nn), 2 * nn + 2 < fpmax()
@dec e
@top lemma_fpand1(e); lemma_fp(rv); lemma_fp(xp); lemma_ppow_step(fpp(rv), fpp(xp), e as int, p); lemma_fpexp(rv.degree as int, xp.degree as int, e as int, nn);
@after lemma_fp(rv); lemma_ppow_0(fpp(rv), fpp(xp), p);
@fn polynomials::fp_poly_t::deriv() const
@requires fpok(*this)
@ensures fpis(ret, fpm(*this), pderiv(fpp(*this), fpm(*this))), ret.degree <= this.degree
@entry
let ghost pp = fpm(*this);
lemma_fp(*this); assert(elok(this.coeffs.v@[0], pp)); lemma_pderiv_can(fpp(*this), pp, this.degree as int); lemma_small_mod(0, pp as nat); lemma_pc0();
@loop 0
@inv 1 <= i <= this.degree + 1, fpok(*this), rv.degree == this.degree - 1, rv.degree >= 0, rv.coeffs.v@.len() > this.degree, fpst(rv), p == fpm(*this), pp == p, forall|k: int| 0 <= k < i - 1 ==> elis(#[trigger] rv.coeffs.v@[k], pp, pderiv(fpp(*this), pp)(k))
@dec this.degree + 1 - i
@top lemma_fp(*this); assert(elok(this.coeffs.v@[i as int], pp)); lemma_mulmodr(fpp(*this)(i as int), i as int, pp);
@beforecall recompute_degree 0 lemma_fpmk(rv, pp, pderiv(fpp(*this), pp));
@fn polynomials::fp_poly_t::eval(const spffl::intmath::intmod_t &) const
@requires fpok(*this), mok(*c)
@throws this.degree > 0 && fpm(*this) != c.modulus
@ensures elis(ret, fpm(*this), psum(pevt(fpp(*this), c.residue as int), this.degree + 1) % fpm(*this))
@entry
let ghost p = fpm(*this);
lemma_fp(*this); assert(elok(this.coeffs.v@[this.degree as int], p)); lemma_fpmod(fpp(*this)(this.degree as int), 0, p); lemma_horner(fpp(*this), c.residue as int, 0, this.degree as int, p); lemma_hor1(fpp(*this), c.residue as int, this.degree as int, p);
@loop 0
@inv -1 <= i < this.degree, fpok(*this), mok(*c), p == fpm(*this), i < this.degree - 1 ==> p == c.modulus, elok(rv, p), elis(rv, p, hor(fpp(*this), c.residue as int, i + 1, this.degree as int, p))
@dec i + 1
@top lemma_fp(*this); assert(elok(this.coeffs.v@[i as int], p)); lemma_horstep(fpp(*this), c.residue as int, i as int, this.degree as int, p);
@fn polynomials::fp_poly_t::operator==(int) const
@requires fpok(*this)
@ensures ret == (fpp(*this) == pc(v as int))
@entry lemma_fp(*this); assert(elok(this.coeffs.v@[0], fpm(*this))); lemma_pceq(fpp(*this), v as int, this.degree as int);
@fn polynomials::fp_poly_t::operator!=(int) const
@requires fpok(*this)
@ensures ret == (fpp(*this) != pc(v as int))
@fn polynomials::fp_poly_t::cmp(int, const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws cmp < 20 || cmp > 25 || (this.degree == that.degree && fpm(*this) != fpm(*that))
@ensures ret == cmpval(cmp as int, fpp(*this), fpp(*that))
@entry lemma_fp(*this); lemma_fp(*that); lemma_fpdir(fpp(*this), fpp(*that), this.degree as int, that.degree as int);
@loop 0
@inv this.degree == that.degree, fpok(*this), fpok(*that), i < this.degree ==> fpm(*this) == fpm(*that)
@xinv -1 <= i <= this.degree, direction == 0, forall|k: int| i < k <= this.degree ==> #[trigger] fpp(*this)(k) == fpp(*that)(k)
@lens -1 <= direction <= 1, direction != 0 ==> dirspec(direction as int, fpp(*this), fpp(*that)), direction == 0 ==> (forall|k: int| 0 <= k <= this.degree ==> #[trigger] fpp(*this)(k) == fpp(*that)(k)) , fpm(*this) == fpm(*that)
@dec i + 1
@top lemma_fp(*this); lemma_fp(*that); assert(elok(this.coeffs.v@[i as int], fpm(*this))); assert(elok(that.coeffs.v@[i as int], fpm(*that))); lemma_fpdirat(fpp(*this), fpp(*that), i as int, this.degree as int);
@after lemma_fp(*this); lemma_fp(*that); if direction == 0 { lemma_fpdireq(fpp(*this), fpp(*that), this.degree as int); }
@fn polynomials::fp_poly_t::operator==(const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws this.degree == that.degree && fpm(*this) != fpm(*that)
@ensures ret == (fpp(*this) == fpp(*that))
@fn polynomials::fp_poly_t::operator!=(const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws this.degree == that.degree && fpm(*this) != fpm(*that)
@ensures ret == (fpp(*this) != fpp(*that))
@fn polynomials::fp_poly_t::operator<(const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws this.degree == that.degree && fpm(*this) != fpm(*that)
@ensures ret == (plt(fpp(*this), fpp(*that)))
@fn polynomials::fp_poly_t::operator>(const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws this.degree == that.degree && fpm(*this) != fpm(*that)
@ensures ret == (plt(fpp(*that), fpp(*this)))
@fn polynomials::fp_poly_t::operator<=(const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws this.degree == that.degree && fpm(*this) != fpm(*that)
@ensures ret == (plt(fpp(*this), fpp(*that)) || fpp(*this) == fpp(*that))
@fn polynomials::fp_poly_t::operator>=(const fp_poly_t &) const
@requires fpok(*this), fpok(*that)
@throws this.degree == that.degree && fpm(*this) != fpm(*that)
@ensures ret == (plt(fpp(*that), fpp(*this)) || fpp(*this) == fpp(*that))
@fn polynomials::fp_poly_t::increment()
@requires fpok(*old(this)), old(this).degree + 1 < fpmax()
@ensures fpok(*final(this)), fpm(*final(this)) == fpm(*old(this)), pinc(fpp(*old(this)), fpp(*final(this)), fpm(*old(this)))
@entry
let ghost o = *this;
let ghost pp = fpm(*this);
lemma_fp(*this); assert(elok(this.coeffs.v@[0], pp)); lemma_small_mod(0, pp as nat); lemma_small_mod(1, pp as nat);
@loop 0
@inv 0 <= i <= this.degree + 1, o == *old(this), fpok(o), pp == p, pp == fpm(o), elis(zero, pp, 0), elis(one, pp, 1), this.degree == o.degree, o.degree + 1 < fpmax(), fpst(*this), forall|k: int| 0 <= k < i ==> elis(#[trigger] this.coeffs.v@[k], pp, 0) && fpp(o)(k) == pp - 1, forall|k: int| i <= k <= o.degree ==> #[trigger] this.coeffs.v@[k] == o.coeffs.v@[k]
@dec this.degree + 1 - i
@top
let ghost b4 = this.coeffs.v@;
lemma_fp(o); assert(elok(o.coeffs.v@[i as int], pp)); assert(this.coeffs.v@[i as int] == o.coeffs.v@[i as int]); lemma_incmod(fpp(o)(i as int), pp);
@aftercall operator+= 0 assert forall|k: int| 0 <= k < i implies elis(#[trigger] this.coeffs.v@[k], pp, 0) && fpp(o)(k) == pp - 1 by { assert(this.coeffs.v@[k] == b4[k]); } assert forall|k: int| i < k <= o.degree implies #[trigger] this.coeffs.v@[k] == o.coeffs.v@[k] by { assert(this.coeffs.v@[k] == b4[k]); } lemma_fpinc(*this, o, i as int, pp);
@beforecall set_coeff 0 lemma_fpinc0(*this, o, pp);
@exit if pinc_at(fpp(o), fpp(*this), o.degree + 1, pp) { }
@fn polynomials::fp_poly_t::promote()
@requires fpok(*old(this)), old(this).degree + 1 < fpmax()
@ensures fpis(*final(this), fpm(*old(this)), pmul(pxk(1), fpp(*old(this)), fpm(*old(this)))), final(this).degree <= old(this).degree + 1
@entry
let ghost o = *this;
let ghost p = fpm(*this);
lemma_fp(*this); lemma_xkp(fpp(*this), p, this.degree as int);
@loop 0
@inv 0 <= i <= this.degree + 1, this.degree == o.degree, fpok(o), o.degree + 1 < fpmax(), ocoeffs.v@ == o.coeffs.v@, ocoeffs.st is Live, this.coeffs.v@.len() == o.degree + 2, this.coeffs.st is Live, forall|k: int| 0 <= k < i ==> #[trigger] this.coeffs.v@[k + 1] == o.coeffs.v@[k]
@dec this.degree + 1 - i
@after lemma_fp(o); assert(this.coeffs.v@[0int + 1] == o.coeffs.v@[0]); assert(elok(o.coeffs.v@[0], p)); lemma_msub0(o.coeffs.v@[0]);
@beforecall recompute_degree 0 lemma_fp(o); assert forall|k: int| 0 <= k <= this.degree implies elis(#[trigger] this.coeffs.v@[k], p, pmul(pxk(1), fpp(o), p)(k)) by { if k >= 1 { assert(this.coeffs.v@[(k - 1) + 1] == o.coeffs.v@[k - 1]); assert(elok(o.coeffs.v@[k - 1], p)); } } lemma_fpmk(*this, p, pmul(pxk(1), fpp(o), p));
@fn polynomials::fp_poly_t::promote_and_add(spffl::intmath::intmod_t)
@requires fpok(*old(this)), old(this).degree + 1 < fpmax(), mset(c0), c0.modulus == fpm(*old(this))
@ensures fpis(*final(this), fpm(*old(this)), padd(pmul(pxk(1), fpp(*old(this)), fpm(*old(this))), pc(c0.residue as int), fpm(*old(this)))), final(this).degree <= old(this).degree + 1
@aftercall promote 0 lemma_fp(*this);
@exit lemma_fp(*old(this)); lemma_xkp(fpp(*old(this)), fpm(*old(this)), old(this).degree as int); lemma_fppaa(*this, fpp(*old(this)), old(this).degree as int, fpm(*old(this)), c0.residue as int);
@fn polynomials::fp_poly_t::pth_root(fp_poly_t &) const
@requires fpok(*this), fpst(*old(rroot))
@ensures ret == isxp(fpp(*this), fpm(*this)), ret ==> fpis(*final(rroot), fpm(*this), pdec(fpp(*this), fpm(*this))), !ret ==> *final(rroot) == *old(rroot)
@entry
let ghost pp = fpm(*this);
lemma_fp(*this); assert(elok(this.coeffs.v@[0], pp)); lemma_small_mod(0, pp as nat);
@loop 0
@inv -1 <= di < this.degree, fpok(*this), p as int == pp, pp == fpm(*this), elis(zero, pp, 0), fpst(out), out.degree == this.degree, forall|k: int| di < k <= this.degree ==> elis(#[trigger] out.coeffs.v@[k], pp, 0)
@dec di + 1
@loop 1
@inv fpok(*this), p as int == pp, pp == fpm(*this), elis(zero, pp, 0), fpst(out), out.degree == this.degree, 0 <= di <= this.degree + 1, si as int == mul(di as int, pp), si >= 0, forall|k: int| 0 <= k < di ==> elis(#[trigger] out.coeffs.v@[k], pp, pdec(fpp(*this), pp)(k)), forall|k: int| di <= k <= this.degree ==> elis(#[trigger] out.coeffs.v@[k], pp, 0), forall|k: int| k < si && k % pp != 0 ==> #[trigger] fpp(*this)(k) == 0
@dec this.degree + 1 - di
@top
let ghost b4 = out.coeffs.v@;
lemma_fp(*this); lemma_sidi(si as int, di as int, pp, this.degree as int);  assert(elok(this.coeffs.v@[si as int], pp)); 
@end assert forall|k: int| 0 <= k <= di implies elis(#[trigger] out.coeffs.v@[k], pp, pdec(fpp(*this), pp)(k)) by { if k < di { assert(out.coeffs.v@[k] == b4[k]); } } assert forall|k: int| di < k <= this.degree implies elis(#[trigger] out.coeffs.v@[k], pp, 0) by { assert(out.coeffs.v@[k] == b4[k]); } assert forall|k: int| k < si + pp && k % pp != 0 implies #[trigger] fpp(*this)(k) == 0 by { lemma_sik(k, si as int, di as int, pp); }
@after lemma_fp(*this); lemma_pdecend(fpp(*this), pp, si as int, di as int, this.degree as int);
@loop 2
@inv fpok(*this), p as int == pp, pp == fpm(*this), elis(zero, pp, 0), 1 <= j <= p, 0 <= si <= this.degree, si as int == mul(di as int, pp), out.coeffs.v@ == b4.update(di as int, this.coeffs.v@[si as int]), 0 <= di <= this.degree, fpst(out), out.degree == this.degree
@xinv forall|k: int| si < k < si + j ==> #[trigger] fpp(*this)(k) == 0
@lens forall|k: int| si < k < si + pp ==> #[trigger] fpp(*this)(k) == 0
@dec p - j
@top lemma_fp(*this); if si + j <= this.degree { assert(elok(this.coeffs.v@[si + j], pp)); lemma_sik(si + j, si as int, di as int, pp); }
@beforecall recompute_degree 0 assert forall|k: int| 0 <= k <= out.degree implies elis(#[trigger] out.coeffs.v@[k], pp, pdec(fpp(*this), pp)(k)) by { if k >= di { assert(elis(out.coeffs.v@[k], pp, 0)); } } lemma_fpmk(out, pp, pdec(fpp(*this), pp));
