# ---- C07/C08: polynomials over F2.  f2p(words) is the polynomial, f2ok: no zero word on top, at most f2max() words.
@fn bits::bit_t::bit_t(int)
@ensures ret.residue as int == (arg_residue as int) % 2
@exit lemma_and1(arg_residue);
@fn bits::bit_t::bit_t(const bit_t &)
@ensures ret.residue == that.residue

@fn polynomials::f2_poly_t::f2_poly_t()
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pz()
@exit lemma_f2zero(ret.parts@);
@fn polynomials::f2_poly_t::f2_poly_t(int)
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pc(c0 as int % 2), ret.parts@.len() == 1
@exit lemma_c01(c0); lemma_pcof(ret.parts@, ret.parts@[0], 0, 0, c0 as int);
@fn polynomials::f2_poly_t::f2_poly_t(int, int)
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pcof(0, c1 as int, c0 as int)
@entry lemma_c2(0, c1, c0);
@exit lemma_pcof(ret.parts@, ret.parts@[0], 0, c1 as int, c0 as int);
@fn polynomials::f2_poly_t::f2_poly_t(int, int, int)
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pcof(c2 as int, c1 as int, c0 as int)
@entry lemma_c2(c2, c1, c0);
@exit lemma_pcof(ret.parts@, ret.parts@[0], c2 as int, c1 as int, c0 as int);
@fn polynomials::f2_poly_t::from_base_rep(uint64_t)
@ensures f2ok(ret.parts@), forall|k: int| #[trigger] f2p(ret.parts@)(k) == (if 0 <= k < 64 && wb(b, k) { 1int } else { 0int })
@exit lemma_f2one(ret.parts@, b);
@fn polynomials::f2_poly_t::f2_poly_t(const f2_poly_t &)
@ensures ret.parts@ == that.parts@
@fn polynomials::f2_poly_t::prime_subfield_element(int) const
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pc(v as int % 2)
@exit lemma_c01(v);
@fn polynomials::f2_poly_t::operator=(const f2_poly_t &)
@ensures final(this).parts@ == that.parts@
@fn polynomials::f2_poly_t::operator=(int)
@ensures f2ok(final(this).parts@), f2p(final(this).parts@) == pc(bit as int % 2)
@exit lemma_c01(bit); lemma_pcof(this.parts@, this.parts@[0], 0, 0, bit as int);

@fn polynomials::f2_poly_t::find_degree() const
@requires 1 <= this.parts@.len() <= 2 * f2max()
@ensures isdeg(f2p(this.parts@), ret as int), 0 <= ret < 64 * this.parts@.len()
@loop 0
@inv -1 <= i < this.parts@.len(), forall|j: int| i < j < this.parts@.len() ==> #[trigger] this.parts@[j] == 0
@dec i + 1
@aftercall find_msb_64 0 lemma_f2degw(this.parts@, i as int, $ret as int); lemma_shl6(i as u64);
@exit if (forall|j: int| 0 <= j < this.parts@.len() ==> #[trigger] this.parts@[j] == 0) { lemma_f2zero(this.parts@); }

@fn polynomials::f2_poly_t::extend_parts(int)
@requires 0 <= new_num_parts <= 2 * f2max()
@ensures final(this).parts@.len() == new_num_parts, forall|j: int| 0 <= j < new_num_parts ==> #[trigger] final(this).parts@[j] == wat(old(this).parts@, j)
@fn polynomials::f2_poly_t::trim_parts()
@requires 1 <= old(this).parts@.len() <= 2 * f2max()
@ensures f2trim(final(this).parts@), final(this).parts@.len() <= old(this).parts@.len(), f2p(final(this).parts@) == f2p(old(this).parts@), f2trim(old(this).parts@) ==> final(this).parts@ == old(this).parts@
@aftercall find_degree 0 lemma_f2deg_words(this.parts@, $ret as int); lemma_sh6i($ret);
@exit lemma_f2trunc(this.parts@, old(this).parts@, this.parts@.len() as int); if f2trim(old(this).parts@) { assert(this.parts@ =~= old(this).parts@); }
@fn polynomials::f2_poly_t::check_neg_pos(int) const
@throws pos < 0

@fn polynomials::f2_poly_t::operator+(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@ensures f2ok(ret.parts@), f2p(ret.parts@) == padd(f2p(this.parts@), f2p(that.parts@), 2), f2p(ret.parts@) == psub(f2p(this.parts@), f2p(that.parts@), 2), ret.parts@.len() <= (if this.parts@.len() > that.parts@.len() { this.parts@.len() } else { that.parts@.len() })
@loop 0
@inv 0 <= i <= this.parts@.len(), this.parts@.len() < that.parts@.len(), rv.parts@.len() == that.parts@.len(), forall|j: int| 0 <= j < i ==> #[trigger] rv.parts@[j] == wat(this.parts@, j) ^ wat(that.parts@, j)
@dec this.parts@.len() - i
@loop 1
@inv this.parts@.len() <= i <= that.parts@.len(), this.parts@.len() < that.parts@.len(), rv.parts@.len() == that.parts@.len(), forall|j: int| 0 <= j < i ==> #[trigger] rv.parts@[j] == wat(this.parts@, j) ^ wat(that.parts@, j)
@dec that.parts@.len() - i
@top lemma_f2xor0(that.parts@[i as int]);
@loop 2
@inv 0 <= i <= that.parts@.len(), that.parts@.len() <= this.parts@.len(), rv.parts@.len() == this.parts@.len(), forall|j: int| 0 <= j < i ==> #[trigger] rv.parts@[j] == wat(this.parts@, j) ^ wat(that.parts@, j)
@dec that.parts@.len() - i
@loop 3
@inv that.parts@.len() <= i <= this.parts@.len(), that.parts@.len() <= this.parts@.len(), rv.parts@.len() == this.parts@.len(), forall|j: int| 0 <= j < i ==> #[trigger] rv.parts@[j] == wat(this.parts@, j) ^ wat(that.parts@, j)
@dec this.parts@.len() - i
@top lemma_f2xor0(this.parts@[i as int]);
@beforecall trim_parts 0 lemma_f2xor0(0); lemma_f2xor(rv.parts@, this.parts@, that.parts@);
@fn polynomials::f2_poly_t::operator-(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@ensures f2ok(ret.parts@), f2p(ret.parts@) == psub(f2p(this.parts@), f2p(that.parts@), 2), f2p(ret.parts@) == padd(f2p(this.parts@), f2p(that.parts@), 2), ret.parts@.len() <= (if this.parts@.len() > that.parts@.len() { this.parts@.len() } else { that.parts@.len() })
@fn polynomials::f2_poly_t::operator-() const
@requires f2ok(this.parts@)
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pneg(f2p(this.parts@), 2)
@exit lemma_f2neg(ret.parts@);

@fn polynomials::f2_poly_t::bit_at(int) const
@requires 1 <= this.parts@.len() <= 2 * f2max()
@ensures ret as int == f2p(this.parts@)(pos as int)
@entry lemma_sh6i(pos); lemma_posmask(pos as u64);
@exit if pos >= 0 { if pos as int / 64 >= this.parts@.len() { lemma_wb0(pos as int % 64); } else { lemma_getwb(this.parts@[pos as int / 64], pos as int % 64); } }
@fn polynomials::f2_poly_t::set_bit(int)
@requires f2ok(old(this).parts@) || (old(this).parts@.len() >= 1 && pos as int / 64 >= old(this).parts@.len()), pos < 64 * f2max()
@throws pos < 0
@ensures f2ok(final(this).parts@), forall|k: int| #[trigger] f2p(final(this).parts@)(k) == (if k == pos { 1 } else { f2p(old(this).parts@)(k) }), final(this).parts@.len() <= (if old(this).parts@.len() > pos as int / 64 { old(this).parts@.len() } else { (pos as int / 64 + 1) as nat })
@onerr final(this).parts@ == old(this).parts@
@entry lemma_sh6i(pos); lemma_posmask(pos as u64);
@exit lemma_f2setbit(this.parts@, old(this).parts@, pos as int);
@fn polynomials::f2_poly_t::set_coeff(int, spffl::bits::bit_t)
@requires f2ok(old(this).parts@), pos < 64 * f2max(), b.residue <= 1
@throws pos < 0
@ensures f2ok(final(this).parts@), forall|k: int| #[trigger] f2p(final(this).parts@)(k) == (if k == pos { b.residue as int } else { f2p(old(this).parts@)(k) })
@onerr final(this).parts@ == old(this).parts@
@entry lemma_sh6i(pos); lemma_posmask(pos as u64);
@beforecall trim_parts 0 lemma_f2clrbit(this.parts@, old(this).parts@, pos as int);
@exit if b.residue == 1 { lemma_f2setbit(this.parts@, old(this).parts@, pos as int); } else { lemma_f2clrno(old(this).parts@, pos as int); }

@fn polynomials::f2_poly_t::zcount_one_bits() const
@requires f2ok(this.parts@)
@ensures ret as int == f2par(this.parts@, this.parts@.len() as int)
@loop 0
@inv 0 <= i <= this.parts@.len(), num_one_bits >= 0, num_one_bits <= 64 * i, num_one_bits as int % 2 == f2par(this.parts@, i as int)
@dec this.parts@.len() - i
@aftercall count_one_bits 0 lemma_parity_all(part, $ret as int);
@exit lemma_and1f(num_one_bits);
@fn polynomials::f2_poly_t::operator+=(const f2_poly_t &)
@requires f2ok(old(this).parts@), f2ok(that.parts@)
@ensures f2ok(final(this).parts@), f2p(final(this).parts@) == padd(f2p(old(this).parts@), f2p(that.parts@), 2), final(this).parts@.len() <= (if old(this).parts@.len() > that.parts@.len() { old(this).parts@.len() } else { that.parts@.len() })
@fn polynomials::f2_poly_t::operator-=(const f2_poly_t &)
@requires f2ok(old(this).parts@), f2ok(that.parts@)
@ensures f2ok(final(this).parts@), f2p(final(this).parts@) == psub(f2p(old(this).parts@), f2p(that.parts@), 2), final(this).parts@.len() <= (if old(this).parts@.len() > that.parts@.len() { old(this).parts@.len() } else { that.parts@.len() })
@fn polynomials::f2_poly_t::operator*=(const f2_poly_t &)
@requires f2ok(old(this).parts@), f2ok(that.parts@), old(this).parts@.len() + that.parts@.len() <= f2max()
@ensures f2ok(final(this).parts@), f2p(final(this).parts@) == pmul(f2p(old(this).parts@), f2p(that.parts@), 2)
@fn polynomials::f2_poly_t::operator*=(int)
@requires f2ok(old(this).parts@)
@ensures f2ok(final(this).parts@), f2p(final(this).parts@) == pscale(f2p(old(this).parts@), bit as int, 2)

@fn polynomials::f2_poly_t::eval(int) const
@requires f2ok(this.parts@)
@ensures ret as int == peval2(this.parts@, c as int), ret == 0 || ret == 1
@entry lemma_and1(c); lemma_eval0(this.parts@); lemma_f2par(this.parts@, this.parts@.len() as int);
@fn polynomials::f2_poly_t::eval(spffl::bits::bit_t) const
@requires f2ok(this.parts@), c.residue <= 1
@ensures ret.residue as int == peval2(this.parts@, c.residue as int)

@fn polynomials::f2_poly_t::_promote_1()
@requires 1 <= old(this).parts@.len() < 2 * f2max()
@ensures f2p(final(this).parts@) == pmul(pxk(1), f2p(old(this).parts@), 2), f2trim(old(this).parts@) ==> f2trim(final(this).parts@), old(this).parts@.len() <= final(this).parts@.len() <= old(this).parts@.len() + 1
@loop 0
@before
let ghost px = this.parts@;
lemma_shz1(0, 63); lemma_shz1(0, 1);
@inv 0 <= i < this.parts@.len(), this.parts@.len() == px.len(), px.len() >= 1, px.len() <= 2 * f2max(), forall|j: int| i < j < px.len() ==> #[trigger] this.parts@[j] == shw(px, j, 0, 1), forall|j: int| 0 <= j <= i ==> #[trigger] this.parts@[j] == px[j]
@dec i
@after lemma_shz1(px[0], 1); lemma_shz1(px[0], 63);
@exit
assert forall|j: int| 0 <= j < this.parts@.len() implies #[trigger] this.parts@[j] == shw(old(this).parts@, j, 0, 1) by { assert(wat(px, j) == wat(old(this).parts@, j) && wat(px, j - 1) == wat(old(this).parts@, j - 1)); }
lemma_promote1(this.parts@, old(this).parts@);

@fn polynomials::f2_poly_t::_demote_1()
@requires 1 <= old(this).parts@.len() <= 2 * f2max()
@ensures forall|k: int| #[trigger] f2p(final(this).parts@)(k) == (if k >= 0 { f2p(old(this).parts@)(k + 1) } else { 0 }), f2trim(final(this).parts@), final(this).parts@.len() <= old(this).parts@.len()
@loop 0
@inv 0 <= i < this.parts@.len(), this.parts@.len() == old(this).parts@.len(), this.parts@.len() <= 2 * f2max(), forall|j: int| 0 <= j < i ==> #[trigger] this.parts@[j] == (old(this).parts@[j] >> 1u64) | (old(this).parts@[j + 1] << 63u64), forall|j: int| i <= j < this.parts@.len() ==> #[trigger] this.parts@[j] == old(this).parts@[j]
@dec this.parts@.len() - i
@entry
let ghost mut trimmed = false;
@beforecall trim_parts 0 lemma_demote1(this.parts@, old(this).parts@); trimmed = true;
@exit if !trimmed { lemma_demote1(this.parts@, old(this).parts@); }

@fn polynomials::f2_poly_t::_promote_n(uint64_t)
@requires f2ok(old(this).parts@), shamt < 64 * f2max()
@ensures f2p(final(this).parts@) == pmul(pxk(shamt as int), f2p(old(this).parts@), 2), f2p(old(this).parts@) != pz() ==> f2trim(final(this).parts@), forall|d: int| #[trigger] isdeg(f2p(old(this).parts@), d) ==> final(this).parts@.len() == (d + shamt) / 64 + 1

@entry
let ghost o = old(this).parts@;
let ghost q = shamt as int / 64;
let ghost s = shamt as int % 64;
lemma_posmask(shamt); assert(shamt >> 6u64 == shamt / 64) by(bit_vector);
@aftercall find_degree 0 lemma_f2deg_words(o, $ret as int); lemma_sh6i($ret); lemma_posmask($ret as u64); lemma_pn_idx($ret as int, q, s);
@aftercall extend_parts 0 lemma_sh6i(ndeg); assert(forall|j: int| 0 <= j < o.len() ==> #[trigger] this.parts@[j] == o[j]);
@loop 0
@inv -1 <= i < onum_parts, s == 0, this.parts@.len() == nnum_parts, onum_parts == o.len(), nnum_parts == onum_parts + q, 0 <= q < f2max(), num_parts_shift == q, 1 <= o.len() <= f2max(), forall|j: int| i + q < j < nnum_parts && j >= q ==> #[trigger] this.parts@[j] == o[j - q], forall|j: int| 0 <= j <= i ==> #[trigger] this.parts@[j] == o[j]
@dec i + 1
@loop 1
@inv -1 <= i < q, s == 0, this.parts@.len() == nnum_parts, onum_parts == o.len(), nnum_parts == onum_parts + q, 0 <= q < f2max(), 1 <= o.len() <= f2max(), forall|j: int| q <= j < nnum_parts ==> #[trigger] this.parts@[j] == o[j - q], forall|j: int| i < j < q ==> #[trigger] this.parts@[j] == 0
@dec i + 1
@loop 2
@before lemma_shz1(o[o.len() - 1], s); lemma_shz1(o[o.len() - 1], 64 - s);
@inv -1 <= si <= onum_parts - 2, di == si + 1 + q, 0 < s < 64, num_bits_shift == s, cmpl_bits_shift == 64 - s, this.parts@.len() == nnum_parts, onum_parts == o.len(), onum_parts + q <= nnum_parts <= onum_parts + q + 1, 0 <= q < f2max(), 1 <= o.len() <= f2max(), forall|j: int| di < j < nnum_parts ==> #[trigger] this.parts@[j] == shw(o, j, q, s), forall|j: int| 0 <= j <= si + 1 ==> #[trigger] this.parts@[j] == o[j]
@dec si + 1
@top assert((o[si as int] >> ((64 - s) as u64)) | (o[si + 1] << (s as u64)) == (o[si + 1] << (s as u64)) | (o[si as int] >> ((64 - s) as u64))) by { let x = o[si as int] >> ((64 - s) as u64); let y = o[si + 1] << (s as u64); assert(x | y == y | x) by(bit_vector); }
@after lemma_shz1(o[0], s); lemma_shz1(0, 64 - s);
@loop 3
@inv -1 <= di < q, 0 < s < 64, this.parts@.len() == nnum_parts, 0 <= q < f2max(), forall|j: int| di < j < q ==> #[trigger] this.parts@[j] == 0, forall|j: int| q <= j < nnum_parts ==> #[trigger] this.parts@[j] == shw(o, j, q, s)
@dec di + 1
@before lemma_shz1(0, s); lemma_shz1(0, 64 - s);
@exit lemma_shz1(0, s); if s > 0 { lemma_shz1(0, 64 - s); } lemma_promoten(this.parts@, o, odeg as int, q, s);  assert forall|d: int| #[trigger] isdeg(f2p(o), d) implies this.parts@.len() == (d + shamt) / 64 + 1 by { lemma_isdeg_uniq(f2p(o), d, odeg as int); }

@fn polynomials::f2_poly_t::operator*(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@), this.parts@.len() + that.parts@.len() <= f2max()
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pmul(f2p(this.parts@), f2p(that.parts@), 2)
@entry lemma_f2can(this.parts@); lemma_f2can(that.parts@);
@aftercall find_degree 0 lemma_f2deg_words(this.parts@, $ret as int);
@aftercall find_degree 1 lemma_f2deg_words(that.parts@, $ret as int);
@loop 0
@inv 0 <= i <= out.parts@.len(), forall|j: int| 0 <= j < i ==> #[trigger] out.parts@[j] == 0, out.parts@.len() == cdeg as int / 64 + 1
@dec out.parts@.len() - i
@before lemma_sh6u(cdeg);
@after lemma_f2zero(out.parts@); lemma_mul_begin(f2p(this.parts@), f2p(that.parts@), f2p(out.parts@));
@loop 1
@inv 0 <= i <= bdeg + 1, f2ok(this.parts@), f2ok(that.parts@), this.parts@.len() + that.parts@.len() <= f2max(), isdeg(f2p(this.parts@), adeg as int), isdeg(f2p(that.parts@), bdeg as int), cdeg == adeg + bdeg, 0 <= adeg, 0 <= bdeg, cdeg < 64 * f2max(), out.parts@.len() == cdeg as int / 64 + 1, f2trim(ashift.parts@),
  f2p(ashift.parts@) == pmul(pxk(i as int), f2p(this.parts@), 2), f2p(out.parts@) == pmul(ptr(f2p(that.parts@), i as int), f2p(this.parts@), 2), can(f2p(this.parts@), 2), can(f2p(that.parts@), 2)
@dec bdeg + 1 - i
@top
let ghost o0 = out.parts@;
lemma_mul_fit(ashift.parts@, f2p(this.parts@), adeg as int, i as int); lemma_divmono(adeg + i, cdeg as int); lemma_xk_step(f2p(this.parts@), i as int);
@end lemma_mul_step(f2p(this.parts@), f2p(that.parts@), i as int, f2p(o0), f2p(out.parts@), pmul(pxk(i as int), f2p(this.parts@), 2));
@loop 2
@inv 0 <= j <= ashift.parts@.len(), out.parts@.len() == o0.len(), ashift.parts@.len() <= o0.len(), o0.len() <= f2max(), forall|k: int| 0 <= k < j ==> #[trigger] out.parts@[k] == o0[k] ^ ashift.parts@[k], forall|k: int| j <= k < o0.len() ==> #[trigger] out.parts@[k] == o0[k]
@dec ashift.parts@.len() - j
@after lemma_xorpart(out.parts@, o0, ashift.parts@);
@beforecall trim_parts 0 lemma_mul_end(f2p(this.parts@), f2p(that.parts@), bdeg as int);

@fn polynomials::f2_poly_t::operator*(int) const
@requires f2ok(this.parts@)
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pscale(f2p(this.parts@), bit as int, 2)
@entry lemma_and1(bit); lemma_pscale2(f2p(this.parts@), bit as int, this.parts@);

@fn polynomials::f2_poly_t::exp(int) const
@requires f2ok(this.parts@), e <= 0 || 2 * this.parts@.len() * e + 2 <= f2max()
@throws (f2p(this.parts@) == pz() && e <= 0) || (f2p(this.parts@) != pz() && f2p(this.parts@) != pc(1) && e < 0)
@ensures f2ok(ret.parts@), e >= 0 ==> f2p(ret.parts@) == ppow(f2p(this.parts@), e as nat, 2), e < 0 ==> f2p(ret.parts@) == pc(1)
@entry
let ghost nn = 64 * this.parts@.len() * e as int;
lemma_f2can(this.parts@); lemma_ppow_consts(if e >= 0 { e as nat } else { 0 }); lemma_c01(0); lemma_c01(1); lemma_pconst(0); lemma_pconst(1);
@aftercall find_degree 0 lemma_f2deg_words(this.parts@, $ret as int);
@loop 0
@before lemma_expinit(this.parts@, e as int);
@inv 0 <= e <= e__in, f2ok(rv.parts@), f2ok(xp.parts@), pmul(f2p(rv.parts@), ppow(f2p(xp.parts@), e as nat, 2), 2) == ppow(f2p(this.parts@), e__in as nat, 2), f2expinv(f2p(rv.parts@), f2p(xp.parts@), e as int, nn), 2 * nn <= 64 * f2max() - 128
@dec e
@top lemma_and1(e); lemma_shr1f(e); lemma_f2can(rv.parts@); lemma_f2can(xp.parts@); lemma_ppow_step(f2p(rv.parts@), f2p(xp.parts@), e as int, 2); lemma_expmul(rv.parts@, xp.parts@, e as int, nn);
@after lemma_f2can(rv.parts@); lemma_ppow_0(f2p(rv.parts@), f2p(xp.parts@), 2);

@fn polynomials::f2_poly_t::deriv() const
@requires f2ok(this.parts@)
@ensures f2ok(ret.parts@), f2p(ret.parts@) == pderiv(f2p(this.parts@), 2)
@entry lemma_f2can(this.parts@);
@loop 0
@before
let ghost m = rv.parts@;
@inv 0 <= i <= rv.parts@.len(), rv.parts@.len() == m.len(), m.len() <= f2max(), forall|j: int| 0 <= j < i ==> #[trigger] rv.parts@[j] == m[j] & 0x5555_5555_5555_5555u64, forall|j: int| i <= j < m.len() ==> #[trigger] rv.parts@[j] == m[j]
@dec rv.parts@.len() - i
@beforecall trim_parts 0 lemma_deriv(rv.parts@, m, f2p(this.parts@));

@fn polynomials::f2_poly_t::square_root(f2_poly_t &) const
@requires f2ok(this.parts@)
@ensures ret ==> f2ok(final(rroot).parts@) && f2p(this.parts@) == pmul(f2p(final(rroot).parts@), f2p(final(rroot).parts@), 2), !ret ==> final(rroot).parts@ == old(rroot).parts@ && (forall|r: P| can(r, 2) ==> f2p(this.parts@) != #[trigger] pmul(r, r, 2))
@entry lemma_f2can(this.parts@); lemma_c01(0); lemma_pconst(0);
@aftercall find_degree 0 lemma_f2deg_words(this.parts@, $ret as int);
@loop 0
@inv si == 2 * di, 0 <= di, si <= deg + 2, deg < 64 * f2max(), f2ok(root.parts@), forall|k: int| k >= di ==> #[trigger] f2p(root.parts@)(k) == 0, forall|k: int| 0 <= k < di ==> #[trigger] f2p(root.parts@)(k) == f2p(this.parts@)(2 * k), forall|k: int| 0 <= k < 2 * di && k % 2 == 1 ==> #[trigger] f2p(this.parts@)(k) == 0
@dec deg + 2 - si
@top lemma_isodd(this.parts@, si as int + 1);
@exit if ret { lemma_f2can(root.parts@); lemma_issqrt(f2p(this.parts@), f2p(root.parts@), deg as int); }

@fn polynomials::f2_poly_t::operator==(int) const
@requires f2ok(this.parts@)
@ensures ret == (f2p(this.parts@) == pc(v as int % 2))
@entry lemma_c01(v); lemma_eqint(this.parts@, v as int % 2);
@loop 0
@inv 0 <= i < this.parts@.len(), forall|j: int| i < j < this.parts@.len() ==> #[trigger] this.parts@[j] == 0, f2ok(this.parts@)
@dec i
@fn polynomials::f2_poly_t::operator!=(int) const
@requires f2ok(this.parts@)
@ensures ret == (f2p(this.parts@) != pc(v as int % 2))
@fn polynomials::f2_poly_t::cmp(int, const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@throws op < 20 || op > 25
@ensures ret == cmpval(op as int, f2p(this.parts@), f2p(that.parts@)), (f2p(this.parts@) == f2p(that.parts@)) == (this.parts@ == that.parts@)
@aftercall find_degree 0 lemma_f2deg_words(this.parts@, $ret as int); lemma_sh6i($ret);
@aftercall find_degree 1 lemma_f2deg_words(that.parts@, $ret as int); if adeg < $ret { lemma_plt_deg(this.parts@, that.parts@, adeg as int, $ret as int); } if adeg > $ret { lemma_plt_deg(that.parts@, this.parts@, $ret as int, adeg as int); } if f2p(this.parts@) == f2p(that.parts@) { lemma_f2canon(this.parts@, that.parts@); }
@loop 0
@inv isdeg(f2p(this.parts@), adeg as int), isdeg(f2p(that.parts@), adeg as int), adeg as int / 64 == this.parts@.len() - 1, this.parts@.len() == that.parts@.len(), f2ok(this.parts@), f2ok(that.parts@)
@xinv -1 <= i <= adeg as int / 64, direction == 0, forall|j: int| i < j <= adeg as int / 64 ==> #[trigger] this.parts@[j] == that.parts@[j]
@lens direction == 0 ==> (forall|j: int| 0 <= j <= adeg as int / 64 ==> #[trigger] this.parts@[j] == that.parts@[j]), direction != 0 ==> dirspec(direction as int, f2p(this.parts@), f2p(that.parts@))
@dec i + 1
@top assert forall|j: int| j > i implies #[trigger] wat(this.parts@, j) == wat(that.parts@, j) by { if j < this.parts@.len() { assert(this.parts@[j] == that.parts@[j]); } } if this.parts@[i as int] < that.parts@[i as int] { lemma_plt_words(this.parts@, that.parts@, i as int); } if this.parts@[i as int] > that.parts@[i as int] { lemma_plt_words(that.parts@, this.parts@, i as int); }
@after if direction == 0 { lemma_eqwords(this.parts@, that.parts@, adeg as int); }
@fn polynomials::f2_poly_t::operator==(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@ensures ret == cmpval(22, f2p(this.parts@), f2p(that.parts@)), ret == (this.parts@ == that.parts@)
@fn polynomials::f2_poly_t::operator!=(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@ensures ret == cmpval(23, f2p(this.parts@), f2p(that.parts@))
@fn polynomials::f2_poly_t::operator<(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@ensures ret == cmpval(20, f2p(this.parts@), f2p(that.parts@))
@fn polynomials::f2_poly_t::operator>(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@ensures ret == cmpval(25, f2p(this.parts@), f2p(that.parts@))
@fn polynomials::f2_poly_t::operator<=(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@ensures ret == cmpval(21, f2p(this.parts@), f2p(that.parts@))
@fn polynomials::f2_poly_t::operator>=(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@)
@ensures ret == cmpval(24, f2p(this.parts@), f2p(that.parts@))
@fn polynomials::f2_poly_t::increment()
@requires f2ok(old(this).parts@), old(this).parts@.len() < f2max()
@ensures f2ok(final(this).parts@), pincr(f2p(old(this).parts@), f2p(final(this).parts@))
@entry
let ghost mut wi = 0int;
let ghost mut z = this.parts@;
@loop 0
@inv 0 <= i <= this.parts@.len(), this.parts@.len() == old(this).parts@.len(), f2ok(old(this).parts@), this.parts@.len() < f2max(), zero == 0, forall|j: int| 0 <= j < i ==> #[trigger] this.parts@[j] == 0, forall|j: int| 0 <= j < i ==> #[trigger] old(this).parts@[j] == !0u64, forall|j: int| i <= j < this.parts@.len() ==> #[trigger] this.parts@[j] == old(this).parts@[j]
@dec this.parts@.len() - i
@top wi = i as int; assert(!0u64 == 0xffff_ffff_ffff_ffffu64) by(bit_vector);
@after wi = this.parts@.len() as int; z = this.parts@;
@exit if wi < old(this).parts@.len() { lemma_incrw(old(this).parts@, this.parts@, wi); } else { lemma_incrall(old(this).parts@, z, f2p(this.parts@)); }
# ---- C08
@fn polynomials::f2_poly_t::quot_and_rem(const f2_poly_t &, f2_poly_t &, f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@), this.parts@.len() + that.parts@.len() <= f2max()
@throws f2p(that.parts@) == pz()
@ensures f2ok(final(rquot).parts@), f2ok(final(rrem).parts@), f2div(f2p(this.parts@), f2p(that.parts@), f2p(final(rquot).parts@), f2p(final(rrem).parts@)), qdeg(f2p(final(rquot).parts@), f2p(this.parts@), f2p(that.parts@)), final(rquot).parts@.len() <= this.parts@.len(), final(rrem).parts@.len() <= this.parts@.len()
@entry lemma_f2can(this.parts@); lemma_f2can(that.parts@); lemma_c01(0); lemma_pconst(0); lemma_pz_dle();
@aftercall find_degree 0 lemma_f2deg_words(that.parts@, $ret as int); if f2p(that.parts@) != pz() { lemma_deg1(that.parts@, $ret as int); }
@aftercall find_degree 1 lemma_f2deg_words(this.parts@, $ret as int); if f2p(this.parts@) == pz() || $ret < divisor_l1_pos { lemma_div_trivial(f2p(this.parts@), f2p(that.parts@), $ret as int, divisor_l1_pos as int); }
@loop 0
@before lemma_div_begin(f2p(this.parts@), f2p(that.parts@), f2p(shift_divisor.parts@), 0, f2p(quot.parts@));
@inv divisor_l1_pos - 1 <= check_pos <= dividend_l1_pos, quot_pos == check_pos - divisor_l1_pos, 0 <= divisor_l1_pos <= dividend_l1_pos, dividend_l1_pos < 64 * f2max(), isdeg(f2p(this.parts@), dividend_l1_pos as int), isdeg(f2p(that.parts@), divisor_l1_pos as int), f2p(that.parts@)(divisor_l1_pos as int) == 1,
  f2ok(rem.parts@), f2ok(quot.parts@), rem.parts@.len() <= this.parts@.len(), quot.parts@.len() <= this.parts@.len(), f2trim(shift_divisor.parts@), shift_divisor.parts@.len() <= this.parts@.len(), this.parts@.len() <= f2max(), this.parts@.len() == dividend_l1_pos as int / 64 + 1,
  quot_pos >= 0 ==> f2p(shift_divisor.parts@) == pmul(pxk(quot_pos as int), f2p(that.parts@), 2),
  f2p(this.parts@) == padd(pmul(f2p(quot.parts@), f2p(that.parts@), 2), f2p(rem.parts@), 2), dle(f2p(rem.parts@), check_pos as int), dle(f2p(quot.parts@), dividend_l1_pos - divisor_l1_pos), forall|k: int| k <= quot_pos ==> #[trigger] f2p(quot.parts@)(k) == 0
@dec check_pos + 1 - divisor_l1_pos
@top
let ghost r0 = rem.parts@;
let ghost q0 = quot.parts@;
let ghost s0 = shift_divisor.parts@;
lemma_f2can(that.parts@); lemma_f2can(this.parts@); lemma_f2can(rem.parts@); lemma_f2can(quot.parts@); assert(0 <= f2p(rem.parts@)(check_pos as int) < 2); lemma_divmono(quot_pos as int, dividend_l1_pos as int);
@aftercall bit_at 0 if $ret == 0 { lemma_div_skip(f2p(rem.parts@), check_pos as int); }
@beforecall _demote_1 0 if f2p(r0)(check_pos as int) == 1 { lemma_div_step(f2p(this.parts@), f2p(that.parts@), f2p(q0), f2p(quot.parts@), f2p(r0), f2p(rem.parts@), f2p(s0), check_pos as int, divisor_l1_pos as int, quot_pos as int); assert forall|k: int| k > dividend_l1_pos - divisor_l1_pos implies #[trigger] f2p(quot.parts@)(k) == 0 by { assert(f2p(q0)(k) == 0); } }
@aftercall _demote_1 0 if quot_pos >= 1 { lemma_div_demote(f2p(s0), f2p(shift_divisor.parts@), f2p(that.parts@), quot_pos as int); }
@after lemma_div_end(f2p(this.parts@), f2p(that.parts@), f2p(quot.parts@), f2p(rem.parts@), dividend_l1_pos as int, divisor_l1_pos as int);
@fn polynomials::f2_poly_t::operator/(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@), this.parts@.len() + that.parts@.len() <= f2max()
@throws f2p(that.parts@) == pz()
@ensures f2ok(ret.parts@), f2isquot(f2p(this.parts@), f2p(that.parts@), f2p(ret.parts@)), ret.parts@.len() <= this.parts@.len()
@exit assert(f2div(f2p(this.parts@), f2p(that.parts@), f2p(ret.parts@), f2p(rem.parts@)));
@fn polynomials::f2_poly_t::operator%(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@), this.parts@.len() + that.parts@.len() <= f2max()
@throws f2p(that.parts@) == pz()
@ensures f2ok(ret.parts@), f2isrem(f2p(this.parts@), f2p(that.parts@), f2p(ret.parts@)), ret.parts@.len() <= this.parts@.len()
@exit lemma_f2can(quot.parts@); assert(f2div(f2p(this.parts@), f2p(that.parts@), f2p(quot.parts@), f2p(ret.parts@)));
@fn polynomials::f2_poly_t::operator/=(const f2_poly_t &)
@requires f2ok(old(this).parts@), f2ok(that.parts@), old(this).parts@.len() + that.parts@.len() <= f2max()
@throws f2p(that.parts@) == pz()
@ensures f2ok(final(this).parts@), f2isquot(f2p(old(this).parts@), f2p(that.parts@), f2p(final(this).parts@)), final(this).parts@.len() <= old(this).parts@.len()
@onerr final(this).parts@ == old(this).parts@
@fn polynomials::f2_poly_t::operator%=(const f2_poly_t &)
@requires f2ok(old(this).parts@), f2ok(that.parts@), old(this).parts@.len() + that.parts@.len() <= f2max()
@throws f2p(that.parts@) == pz()
@ensures f2ok(final(this).parts@), f2isrem(f2p(old(this).parts@), f2p(that.parts@), f2p(final(this).parts@))
@onerr final(this).parts@ == old(this).parts@
@fn polynomials::f2_poly_t::gcd(const f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@), this.parts@.len() + that.parts@.len() <= f2max()
@ensures f2ok(ret.parts@), pgcd(f2p(ret.parts@), f2p(this.parts@), f2p(that.parts@), 2), pcx(f2p(ret.parts@), f2p(this.parts@), f2p(that.parts@), 2), (f2p(this.parts@) != pz() || f2p(that.parts@) != pz()) ==> f2p(ret.parts@) != pz(), ret.parts@.len() <= (if this.parts@.len() > that.parts@.len() { this.parts@.len() } else { that.parts@.len() })
@entry
let ghost ml = if this.parts@.len() > that.parts@.len() { this.parts@.len() } else { that.parts@.len() };
lemma_pconst(0); lemma_f2can(this.parts@); lemma_f2can(that.parts@); lemma_pgcd_zero(f2p(this.parts@), f2p(that.parts@), 2); lemma_pcx_begin(f2p(this.parts@), f2p(that.parts@), 2);
@loop 0
@before lemma_f2isdeg(d.parts@);
@inv f2ok(c.parts@), f2ok(d.parts@), f2p(c.parts@) != pz(), f2p(d.parts@) != pz(), c.parts@.len() + d.parts@.len() <= f2max(), c.parts@.len() <= ml, d.parts@.len() <= ml, gtrans(f2p(c.parts@), f2p(d.parts@), f2p(this.parts@), f2p(that.parts@), 2), 0 <= f2deg(d.parts@), pcx(f2p(c.parts@), f2p(this.parts@), f2p(that.parts@), 2), pcx(f2p(d.parts@), f2p(this.parts@), f2p(that.parts@), 2), can(f2p(this.parts@), 2), can(f2p(that.parts@), 2)
@lens f2ok(d.parts@), f2p(d.parts@) != pz(), pcx(f2p(d.parts@), f2p(this.parts@), f2p(that.parts@), 2), pgcd(f2p(d.parts@), f2p(this.parts@), f2p(that.parts@), 2), d.parts@.len() <= ml
@dec f2deg(d.parts@)
@top lemma_pconst(0);
@aftercall quot_and_rem 0 lemma_f2can(c.parts@); lemma_f2can(d.parts@); lemma_f2can(q.parts@); lemma_f2can(r.parts@); lemma_pcx_step(f2p(this.parts@), f2p(that.parts@), f2p(c.parts@), f2p(d.parts@), f2p(q.parts@), f2p(r.parts@), 2); if f2p(r.parts@) == pz() { lemma_gtrans_end(f2p(this.parts@), f2p(that.parts@), f2p(c.parts@), f2p(d.parts@), f2p(q.parts@), 2); } else { lemma_rem_deg(r.parts@, d.parts@); lemma_gtrans_step(f2p(this.parts@), f2p(that.parts@), f2p(c.parts@), f2p(d.parts@), f2p(q.parts@), f2p(r.parts@), 2); }
@fn polynomials::f2_poly_t::ext_gcd(const f2_poly_t &, f2_poly_t &, f2_poly_t &) const
@requires f2ok(this.parts@), f2ok(that.parts@), 2 * (this.parts@.len() + that.parts@.len()) + 4 <= f2max()
@ensures f2ok(ret.parts@), f2ok(final(rm).parts@), f2ok(final(rn).parts@), pgcd(f2p(ret.parts@), f2p(this.parts@), f2p(that.parts@), 2), pcomb(f2p(ret.parts@), f2p(this.parts@), f2p(that.parts@), f2p(final(rm).parts@), f2p(final(rn).parts@), 2), (f2p(this.parts@) != pz() || f2p(that.parts@) != pz()) ==> f2p(ret.parts@) != pz(), final(rm).parts@.len() <= that.parts@.len(), final(rn).parts@.len() <= this.parts@.len()
@entry
let ghost ml = if this.parts@.len() > that.parts@.len() { this.parts@.len() } else { that.parts@.len() };
let ghost aa = f2deg(this.parts@);
let ghost bb = f2deg(that.parts@);
lemma_pconst(0); lemma_f2can(this.parts@); lemma_f2can(that.parts@); lemma_pgcd_zero(f2p(this.parts@), f2p(that.parts@), 2); lemma_f2isdeg(this.parts@); lemma_f2isdeg(that.parts@); lemma_pz_dle();
@loop 0
@before lemma_bz_begin(f2p(this.parts@), f2p(that.parts@));
@inv f2ok(c.parts@), f2ok(d.parts@), f2p(c.parts@) != pz(), f2p(d.parts@) != pz(), c.parts@.len() + d.parts@.len() <= f2max(), c.parts@.len() <= ml, d.parts@.len() <= ml, gtrans(f2p(c.parts@), f2p(d.parts@), f2p(this.parts@), f2p(that.parts@), 2), 0 <= f2deg(d.parts@), 4 * ml + 4 <= 2 * f2max(), 
  f2ok(rm.parts@), f2ok(rn.parts@), f2ok(mprime.parts@), f2ok(nprime.parts@), pcomb(f2p(c.parts@), f2p(this.parts@), f2p(that.parts@), f2p(mprime.parts@), f2p(nprime.parts@), 2), pcomb(f2p(d.parts@), f2p(this.parts@), f2p(that.parts@), f2p(rm.parts@), f2p(rn.parts@), 2),
  bzbound(f2p(rm.parts@), f2p(mprime.parts@), c.parts@, d.parts@, bb), bzbound(f2p(rn.parts@), f2p(nprime.parts@), c.parts@, d.parts@, aa), 0 <= aa < 32 * f2max() - 64, 0 <= f2deg(c.parts@), 0 <= bb < 32 * f2max() - 64
@lens f2ok(d.parts@), f2p(d.parts@) != pz(), pgcd(f2p(d.parts@), f2p(this.parts@), f2p(that.parts@), 2), d.parts@.len() <= ml, f2ok(rm.parts@), f2ok(rn.parts@), pcomb(f2p(d.parts@), f2p(this.parts@), f2p(that.parts@), f2p(rm.parts@), f2p(rn.parts@), 2), dle(f2p(rm.parts@), bb), dle(f2p(rn.parts@), aa)
@dec f2deg(d.parts@)
@top lemma_pconst(0); 
@aftercall quot_and_rem 0 lemma_f2can(c.parts@); lemma_f2can(d.parts@); lemma_f2can(q.parts@); lemma_f2can(r.parts@); lemma_f2can(rm.parts@); lemma_f2can(rn.parts@); lemma_f2can(mprime.parts@); lemma_f2can(nprime.parts@); lemma_f2can(this.parts@); lemma_f2can(that.parts@); lemma_f2isdeg(c.parts@);
  if f2p(r.parts@) == pz() { lemma_gtrans_end(f2p(this.parts@), f2p(that.parts@), f2p(c.parts@), f2p(d.parts@), f2p(q.parts@), 2); } else { lemma_rem_deg(r.parts@, d.parts@); lemma_gtrans_step(f2p(this.parts@), f2p(that.parts@), f2p(c.parts@), f2p(d.parts@), f2p(q.parts@), f2p(r.parts@), 2);
  lemma_bz_step(rm.parts@, mprime.parts@, q.parts@, c.parts@, d.parts@, r.parts@, bb); lemma_bz_step(rn.parts@, nprime.parts@, q.parts@, c.parts@, d.parts@, r.parts@, aa);
  lemma_pcomb_step(f2p(this.parts@), f2p(that.parts@), f2p(c.parts@), f2p(d.parts@), f2p(q.parts@), f2p(r.parts@), f2p(mprime.parts@), f2p(nprime.parts@), f2p(rm.parts@), f2p(rn.parts@), 2); }
@exit lemma_f2isdeg(this.parts@); lemma_f2isdeg(that.parts@); assert(dle(f2p(rm.parts@), bb)); assert(dle(f2p(rn.parts@), aa)); lemma_f2len(rm.parts@, bb); lemma_f2len(rn.parts@, aa);
