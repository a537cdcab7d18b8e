# ---- C20: factorization over F2: the factors multiply back (partial correctness of the recursion, with termination)
@fn inst::tfacinfo<spffl::polynomials::f2_poly_t>::tfacinfo()
@flag extern
@ensures tfp(ret) == pc(1)
@fn inst::tfacinfo<spffl::polynomials::f2_poly_t>::tfacinfo(const tfacinfo<f2_poly_t> &)
@flag extern
@ensures tfp(ret) == tfp(*that)
@fn inst::tfacinfo<spffl::polynomials::f2_poly_t>::insert_factor(const spffl::polynomials::f2_poly_t &)
@flag extern
@requires f2ok(e.parts@)
@ensures tfp(*final(this)) == pmul(tfp(*old(this)), f2p(e.parts@), 2)
@fn inst::tfacinfo<spffl::polynomials::f2_poly_t>::insert_unit(const spffl::polynomials::f2_poly_t &)
@flag extern
@requires f2ok(e.parts@)
@ensures tfp(*final(this)) == pmul(tfp(*old(this)), f2p(e.parts@), 2)
@fn inst::tfacinfo<spffl::polynomials::f2_poly_t>::exp_all(int)
@flag extern
@requires power >= 1
@ensures tfp(*final(this)) == ppow(tfp(*old(this)), power as nat, 2)
@fn inst::tfacinfo<spffl::polynomials::f2_poly_t>::merge(const tfacinfo<f2_poly_t> &)
@flag extern
@ensures tfp(*final(this)) == pmul(tfp(*old(this)), tfp(*that), 2)
@fn factorization::f2_poly_factor(const spffl::polynomials::f2_poly_t &)
@requires f2ok(f.parts@), f.parts@.len() <= 0x10_0000
@maythrow true
@ensures tfp(ret) == f2p(f.parts@)
@entry lemma_f2can(f.parts@); lemma_pmul_one(f2p(f.parts@), 2);
@fn factorization::f2_poly_pre_berlekamp(const spffl::polynomials::f2_poly_t &, tfacinfo<spffl::polynomials::f2_poly_t> &, bool)
@requires f2ok(f.parts@), f.parts@.len() <= 0x10_0000, f2deg(f.parts@) >= 1, can(tfp(*old(rfinfo)), 2)
@maythrow true
@ensures tfp(*final(rfinfo)) == pmul(tfp(*old(rfinfo)), f2p(f.parts@), 2)
@decreases f2deg(f.parts@), 1int
@entry
let ghost t0 = tfp(*rfinfo);
lemma_f2can(f.parts@); lemma_f2isdeg(f.parts@); lemma_pc01(0); lemma_pc01(1); assert(f2p(f.parts@) != pz()) by { if f2p(f.parts@) == pz() { assert(isdeg(pz(), 0)); lemma_isdeg_uniq(pz(), 0, f2deg(f.parts@)); } }
@aftercall deriv 0 lemma_f2isdeg($ret.parts@); lemma_f2can($ret.parts@); if f2p($ret.parts@) != pz() { lemma_fder(f.parts@, $ret.parts@); lemma_flen($ret.parts@, f.parts@); } else { assert(isdeg(pz(), 0)); lemma_isdeg_uniq(pz(), 0, f2deg($ret.parts@)); lemma_flen($ret.parts@, f.parts@); }
@aftercall gcd 0 lemma_fone($ret.parts@); lemma_f2isdeg($ret.parts@); lemma_f2can($ret.parts@); if f2p(d.parts@) != pz() { lemma_fdivdeg($ret.parts@, d.parts@); }
@aftercall square_root 0 if $ret { lemma_fdeg(s.parts@, s.parts@, f.parts@); lemma_flen(s.parts@, f.parts@); lemma_f2can(s.parts@); let sp = f2p(s.parts@); lemma_pmul_one(sp, 2); assert(ppow(sp, 2, 2) == pmul(sp, ppow(sp, 1, 2), 2)); assert(ppow(sp, 1, 2) == pmul(sp, ppow(sp, 0, 2), 2)); lemma_pol_const(1, 2); }
@aftercall operator/ 0 lemma_f2can($ret.parts@); lemma_fquot(f2p(f.parts@), f2p(g.parts@), f2p($ret.parts@)); lemma_fdeg($ret.parts@, g.parts@, f.parts@); lemma_flen($ret.parts@, f.parts@); lemma_flen(g.parts@, f.parts@); lemma_fone($ret.parts@); lemma_pmul_can(t0, f2p(g.parts@), 2); lemma_pmul_assoc(t0, f2p(g.parts@), f2p($ret.parts@), 2); lemma_pmul_comm(f2p(g.parts@), f2p($ret.parts@), 2);
@fn factorization::f2_poly_berlekamp(const spffl::polynomials::f2_poly_t &, tfacinfo<spffl::polynomials::f2_poly_t> &, bool)
@requires f2ok(f.parts@), f.parts@.len() <= 0x10_0000, f2deg(f.parts@) >= 1, can(tfp(*old(rfinfo)), 2)
@maythrow true
@ensures tfp(*final(rfinfo)) == pmul(tfp(*old(rfinfo)), f2p(f.parts@), 2)
@decreases f2deg(f.parts@), 0int
@entry
let ghost t0 = tfp(*rfinfo);
lemma_f2can(f.parts@); lemma_f2isdeg(f.parts@); lemma_pc01(0); lemma_pc01(1); assert(f2p(f.parts@) != pz()) by { if f2p(f.parts@) == pz() { assert(isdeg(pz(), 0)); lemma_isdeg_uniq(pz(), 0, f2deg(f.parts@)); } }
@beforecall operator* 0 assert(dle(f2p(x.parts@), 1)); lemma_f2len(x.parts@, 1);
@aftercall operator* 0 lemma_mulsz($ret.parts@, x.parts@, x.parts@);
@aftercall operator* 1 lemma_mulsz($ret.parts@, x2i.parts@, x2.parts@);
@aftercall operator% 0 lemma_f2can($ret.parts@);
@aftercall operator% 1 lemma_remlen(pmul(f2p(x2i.parts@), f2p(x2.parts@), 2), f.parts@, $ret.parts@);
@loop 0
@inv 0 <= j <= n, n >= 2, n <= bvmax(), bmok(BI), BI.num_rows == n, BI.num_cols == n, f2ok(x2i.parts@), f2ok(x2.parts@), f2ok(f.parts@), f.parts@.len() <= 0x10_0000, x2i.parts@.len() <= 0x10_0000, x2.parts@.len() <= 2, f2p(f.parts@) != pz()
@dec n - j
@loop 1
@inv 0 <= i <= n, 0 <= j < n, n >= 2, n <= bvmax(), bmok(BI), BI.num_rows == n, BI.num_cols == n, f2ok(x2i.parts@), x2i.parts@.len() <= 0x10_0000
@dec n - i
@loop 2
@inv 0 <= i <= n, bmok(BI), BI.num_rows == n, BI.num_cols == n
@dec n - i
@loop 3
@inv 0 <= row, tfp(*rfinfo) == t0, can(t0, 2), f2ok(f.parts@), f.parts@.len() <= 0x10_0000, f2p(f.parts@) != pz(), bmok(nullspace_basis), nullspace_basis.num_rows == dimker, nullspace_basis.num_cols == n, n == f2deg(f.parts@), n >= 2
@dec dimker - row
@aftercall f2_poly_from_vector 0 lemma_f2can($ret.parts@); assert(n / 64 + 1 <= f.parts@.len()) by { lemma_f2isdeg(f.parts@); }
@aftercall operator+ 0 lemma_f2can($ret.parts@);
@aftercall operator* 2 lemma_mulsz($ret.parts@, h.parts@, h.parts@);
@aftercall operator* 3 lemma_mulsz($ret.parts@, hc.parts@, hc.parts@);
@aftercall gcd 0 lemma_f2can($ret.parts@);
@aftercall gcd 1 lemma_f2can($ret.parts@); lemma_bfac(f.parts@, f2p(h.parts@), f2p(hc.parts@), f2p(f1.parts@), f2p($ret.parts@)); lemma_fdeg(f1.parts@, $ret.parts@, f.parts@); lemma_fone(f1.parts@); lemma_fone($ret.parts@); lemma_flen(f1.parts@, f.parts@); lemma_flen($ret.parts@, f.parts@); lemma_pmul_can(t0, f2p(f1.parts@), 2); lemma_pmul_assoc(t0, f2p(f1.parts@), f2p($ret.parts@), 2);
@fn factorization::f2_poly_from_vector(const spffl::bits::bit_vector_t &, int)
@requires bvok(*v), 0 <= n, n <= v.num_bits, n <= 0x400_0000
@ensures f2ok(ret.parts@), ret.parts@.len() <= n / 64 + 1, dle(f2p(ret.parts@), n - 1)
@loop 0
@before lemma_pc01(0);
@inv 0 <= i <= n, n <= v.num_bits, bvok(*v), f2ok(f.parts@), f.parts@.len() <= n / 64 + 1, dle(f2p(f.parts@), n - 1), n <= 0x400_0000
@dec n - i
@exit assert(ret.parts@ == f.parts@);
@fn bits::bit_matrix_t::row_echelon_form()
@flag extern
@maythrow true
@requires bmok(*old(this))
@ensures bmok(*final(this)), final(this).num_rows == old(this).num_rows, final(this).num_cols == old(this).num_cols
@fn bits::bit_matrix_t::get_kernel_basis(bit_matrix_t &) const
@flag extern
@maythrow true
@requires bmok(*this)
@ensures ret ==> bmok(*final(rbas)) && final(rbas).num_cols == this.num_cols
@fn inst::tfacinfo<spffl::polynomials::f2_poly_t>::get_num_factors() const
@flag extern
@ensures true
@fn factorization::f2_poly_is_irreducible(const spffl::polynomials::f2_poly_t &)
@requires f2ok(f.parts@), f.parts@.len() <= 0x10_0000
@maythrow true
@ensures f2deg(f.parts@) == 0 ==> !ret, f2deg(f.parts@) == 1 ==> ret
@entry lemma_f2can(f.parts@); lemma_f2isdeg(f.parts@);
@aftercall find_degree 0 lemma_isdeg_uniq(f2p(f.parts@), $ret as int, f2deg(f.parts@));
@aftercall tfacinfo 0 lemma_pol_const(1, 2);
