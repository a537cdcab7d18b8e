# ---- C11: division and gcd
@fn polynomials::fp_poly_t::quot_and_rem(const fp_poly_t &, fp_poly_t &, fp_poly_t &) const
@requires fpok(*this), fpok(*that), fpm(*this) == fpm(*that), fpst(*old(rquot)), fpst(*old(rrem))
@throws fpp(*that) == pz() || (fpp(*this) != pz() && this.degree >= that.degree && !coprime(fpm(*this), that.coeffs.v@[that.degree as int].residue as int))
@ensures fpok(*final(rquot)), fpok(*final(rrem)), fpm(*final(rquot)) == fpm(*this), fpm(*final(rrem)) == fpm(*this), pdivs(fpp(*this), fpp(*that), fpp(*final(rquot)), fpp(*final(rrem)), fpm(*this)), qdeg(fpp(*final(rquot)), fpp(*this), fpp(*that)), pisquot(fpp(*this), fpp(*that), fpp(*final(rquot)), fpm(*this)), pisrm(fpp(*this), fpp(*that), fpp(*final(rrem)), fpm(*this)), final(rquot).degree <= this.degree, final(rrem).degree <= this.degree
@onerr *final(rquot) == *old(rquot) && *final(rrem) == *old(rrem)
@entry
let ghost p = fpm(*this);
let ghost aa = fpp(*this);
let ghost bb = fpp(*that);
lemma_fplead(*this); lemma_fplead(*that); lemma_pzp(p); lemma_pc0(); lemma_pcs_pc(0); lemma_msub0(this.coeffs.v@[0]); assert(elok(this.coeffs.v@[0], p));
lemma_pmul_zero(bb, p); lemma_padd_laws(aa, aa, aa, p);
if aa == pz() || this.degree < that.degree { lemma_pdv_trivial(aa, bb, this.degree as int, that.degree as int, p); }
@loop 0
@before lemma_qr_begin(aa, bb, quot, rem, max_shift as int, divisor_degree as int, p);
@inv -1 <= shift <= max_shift, fpok(*this), fpok(*that), p == fpm(*this), p == fpm(*that), p >= 2, aa == fpp(*this), bb == fpp(*that), aa != pz(), bb != pz(), dividend_degree == this.degree, divisor_degree == that.degree, max_shift == dividend_degree - divisor_degree, quot.degree == max_shift, fpst(quot), fpw(rem), fpm(rem) == p, rem.degree == this.degree, mset(dlinv), dlinv.modulus == p, is_inv(bb(divisor_degree as int), dlinv.residue as int, p), qrst(aa, bb, quot, rem, shift as int, max_shift as int, divisor_degree as int, p)
@dec shift + 1
@top
let ghost q0 = quot;
let ghost r0 = rem;
lemma_fplead(*this); lemma_fplead(*that);
lemma_qr_top(aa, bb, quot, rem, dlinv.residue as int, shift as int, max_shift as int, divisor_degree as int, p);
@end
lemma_fplead(*this); lemma_fplead(*that);
lemma_qr_step(aa, bb, q0, quot, r0, rem, divisor_with_mul, multiplier.residue as int, dlinv.residue as int, shift as int, max_shift as int, divisor_degree as int, stop as int, p);
@after
lemma_fplead(*this); lemma_fplead(*that); lemma_qr_end(aa, bb, quot, rem, max_shift as int, divisor_degree as int, p);
@loop 1
@inv shift <= i <= stop + 1, stop == shift + divisor_with_mul.degree, 0 <= shift, stop <= this.degree, fpok(divisor_with_mul), fpm(divisor_with_mul) == p, fpst(rem), rem.degree == this.degree, p >= 2, forall|k: int| 0 <= k <= rem.degree ==> elis(#[trigger] rem.coeffs.v@[k], p, if shift <= k < i { (fpp(r0)(k) - fpp(divisor_with_mul)(k - shift)) % p } else { fpp(r0)(k) })
@dec stop + 1 - i
@top lemma_fp(divisor_with_mul); assert(elis(rem.coeffs.v@[i as int], p, fpp(r0)(i as int))); assert(elok(divisor_with_mul.coeffs.v@[i - shift], p)); assert(0 <= fpp(r0)(i as int) < p);
@aftercall recompute_degree 0 lemma_fp(rem); lemma_fp(quot); lemma_fpmod(0, 0, p);
@fn polynomials::fp_poly_t::operator/(const fp_poly_t &) const
@requires fpok(*this), fpok(*that), fpm(*this) == fpm(*that)
@throws fpp(*that) == pz() || (fpp(*this) != pz() && this.degree >= that.degree && !coprime(fpm(*this), that.coeffs.v@[that.degree as int].residue as int))
@ensures fpok(ret), fpm(ret) == fpm(*this), pisquot(fpp(*this), fpp(*that), fpp(ret), fpm(*this)), ret.degree <= this.degree
@fn polynomials::fp_poly_t::operator%(const fp_poly_t &) const
@requires fpok(*this), fpok(*that), fpm(*this) == fpm(*that)
@throws fpp(*that) == pz() || (fpp(*this) != pz() && this.degree >= that.degree && !coprime(fpm(*this), that.coeffs.v@[that.degree as int].residue as int))
@ensures fpok(ret), fpm(ret) == fpm(*this), pisrm(fpp(*this), fpp(*that), fpp(ret), fpm(*this)), prem(fpp(ret), fpp(*that)), ret.degree <= this.degree
@fn polynomials::fp_poly_t::operator/=(const fp_poly_t &)
@requires fpok(*old(this)), fpok(*that), fpm(*old(this)) == fpm(*that)
@throws fpp(*that) == pz() || (fpp(*old(this)) != pz() && old(this).degree >= that.degree && !coprime(fpm(*old(this)), that.coeffs.v@[that.degree as int].residue as int))
@ensures fpok(*final(this)), fpm(*final(this)) == fpm(*old(this)), pisquot(fpp(*old(this)), fpp(*that), fpp(*final(this)), fpm(*old(this)))
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::operator%=(const fp_poly_t &)
@requires fpok(*old(this)), fpok(*that), fpm(*old(this)) == fpm(*that)
@throws fpp(*that) == pz() || (fpp(*old(this)) != pz() && old(this).degree >= that.degree && !coprime(fpm(*old(this)), that.coeffs.v@[that.degree as int].residue as int))
@ensures fpok(*final(this)), fpm(*final(this)) == fpm(*old(this)), pisrm(fpp(*old(this)), fpp(*that), fpp(*final(this)), fpm(*old(this)))
@onerr *final(this) == *old(this)
@fn polynomials::fp_poly_t::gcd(const fp_poly_t &) const
@requires fpok(*this), fpok(*that), fpm(*this) == fpm(*that), fld(fpm(*this))
@ensures fpok(ret), fpm(ret) == fpm(*this), pgcd(fpp(ret), fpp(*this), fpp(*that), fpm(*this)), (fpp(*this) != pz() || fpp(*that) != pz()) ==> fpp(ret) != pz(), ret.degree <= this.degree || ret.degree <= that.degree
@entry
let ghost p = fpm(*this);
let ghost ml = if this.degree > that.degree { this.degree as int } else { that.degree as int };
lemma_pzp(p); lemma_fplead(*this); lemma_fplead(*that); lemma_pgcd_zero(fpp(*this), fpp(*that), p);
@loop 0
@before lemma_fpbz_begin(fpp(*this), fpp(*that), p);
@inv fpok(c), fpok(d), fpst(q), fpst(r), fpm(c) == p, fpm(d) == p, p >= 2, fld(p), fpp(c) != pz(), fpp(d) != pz(), c.degree <= ml, d.degree <= ml, gtrans(fpp(c), fpp(d), fpp(*this), fpp(*that), p)
@lens fpok(d), fpm(d) == p, fpp(d) != pz(), pgcd(fpp(d), fpp(*this), fpp(*that), p), d.degree <= ml
@dec d.degree
@top lemma_pzp(p); lemma_fplead(c); lemma_fplead(d);
@aftercall quot_and_rem 0 lemma_fplead(c); lemma_fplead(d); lemma_fplead(q); lemma_fplead(r); if fpp(r) == pz() { lemma_gtrans_end(fpp(*this), fpp(*that), fpp(c), fpp(d), fpp(q), p); } else { lemma_fprem_deg(r, d); lemma_gtrans_step(fpp(*this), fpp(*that), fpp(c), fpp(d), fpp(q), fpp(r), p); }
@fn polynomials::fp_poly_t::ext_gcd(const fp_poly_t &, fp_poly_t &, fp_poly_t &) const
@requires fpok(*this), fpok(*that), fpm(*this) == fpm(*that), fld(fpm(*this)), fpst(*old(rm)), fpst(*old(rn)), 4 * this.degree < fpmax() - 8, 4 * that.degree < fpmax() - 8
@ensures fpok(ret), fpm(ret) == fpm(*this), fpok(*final(rm)), fpok(*final(rn)), fpm(*final(rm)) == fpm(*this), fpm(*final(rn)) == fpm(*this), pgcd(fpp(ret), fpp(*this), fpp(*that), fpm(*this)), pcomb(fpp(ret), fpp(*this), fpp(*that), fpp(*final(rm)), fpp(*final(rn)), fpm(*this)), (fpp(*this) != pz() || fpp(*that) != pz()) ==> fpp(ret) != pz(), final(rm).degree <= that.degree, final(rn).degree <= this.degree, ret.degree <= this.degree || ret.degree <= that.degree
@entry
let ghost p = fpm(*this);
let ghost ml = if this.degree > that.degree { this.degree as int } else { that.degree as int };
let ghost aa = this.degree as int;
let ghost bb = that.degree as int;
lemma_pzp(p); lemma_fplead(*this); lemma_fplead(*that); lemma_pgcd_zero(fpp(*this), fpp(*that), p);
@loop 0
@before lemma_fpbz_begin(fpp(*this), fpp(*that), p);
@inv fpok(c), fpok(d), fpst(q), fpst(r), fpst(t), fpst(qm), fpst(qn), fpm(c) == p, fpm(d) == p, p >= 2, fld(p), fpp(d) != pz(), c.degree <= ml, d.degree <= ml, gtrans(fpp(c), fpp(d), fpp(*this), fpp(*that), p), fpok(*this), fpok(*that), fpm(*this) == p, fpm(*that) == p,
  fpok(*rm), fpok(*rn), fpok(mprime), fpok(nprime), fpm(*rm) == p, fpm(*rn) == p, fpm(mprime) == p, fpm(nprime) == p, pcomb(fpp(c), fpp(*this), fpp(*that), fpp(mprime), fpp(nprime), p), pcomb(fpp(d), fpp(*this), fpp(*that), fpp(*rm), fpp(*rn), p), fpbound(fpp(*rm), fpp(mprime), c, d, bb), fpbound(fpp(*rn), fpp(nprime), c, d, aa), 0 <= aa, 0 <= bb, 4 * aa < fpmax() - 8, 4 * bb < fpmax() - 8, aa <= ml, bb <= ml, ml == aa || ml == bb
@lens fpok(d), fpm(d) == p, fpp(d) != pz(), pgcd(fpp(d), fpp(*this), fpp(*that), p), d.degree <= ml, fpok(*rm), fpok(*rn), fpm(*rm) == p, fpm(*rn) == p, pcomb(fpp(d), fpp(*this), fpp(*that), fpp(*rm), fpp(*rn), p), dle(fpp(*rm), bb), dle(fpp(*rn), aa)
@dec d.degree
@top lemma_pzp(p); lemma_fplead(c); lemma_fplead(d);
@aftercall quot_and_rem 0 lemma_fplead(c); lemma_fplead(d); lemma_fplead(q); lemma_fplead(r); lemma_fplead(*rm); lemma_fplead(*rn); lemma_fplead(mprime); lemma_fplead(nprime); lemma_fplead(*this); lemma_fplead(*that);
  if fpp(r) == pz() { lemma_gtrans_end(fpp(*this), fpp(*that), fpp(c), fpp(d), fpp(q), p); } else { lemma_fprem_deg(r, d); lemma_gtrans_step(fpp(*this), fpp(*that), fpp(c), fpp(d), fpp(q), fpp(r), p);
  lemma_fpbz_step(*rm, mprime, q, c, d, r, bb, p); lemma_fpbz_step(*rn, nprime, q, c, d, r, aa, p);
  lemma_pcomb_step(fpp(*this), fpp(*that), fpp(c), fpp(d), fpp(q), fpp(r), fpp(mprime), fpp(nprime), fpp(*rm), fpp(*rn), p); }
@exit assert(dle(fpp(*rm), bb)); assert(dle(fpp(*rn), aa)); lemma_fpdeg_le(*rm, bb); lemma_fpdeg_le(*rn, aa);
