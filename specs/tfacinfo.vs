# ---- C21: factor lists, instantiated with int; trial-division factorization
@fn inst::tfacinfo<int>::tfacinfo()
@ensures tfok(ret), tfs(ret) == Seq::<FC>::empty(), ret.have_unit == 0, ret.num_allocated <= 20
@exit assert(tfs(ret) =~= Seq::<FC>::empty());
@fn inst::tfacinfo<int>::tfacinfo(const tfacinfo<int> &)
@requires tfok(*that)
@ensures tfok(ret), tfs(ret) == tfs(*that), ret.have_unit == that.have_unit, ret.unit == that.unit, ret.num_allocated == that.num_distinct
@loop 0
@inv 0 <= i <= that.num_distinct, tfok(*that), this.pfactors_and_counts.st is Live, this.pfactors_and_counts.v@.len() == that.num_distinct, this.num_distinct == that.num_distinct, this.num_allocated == that.num_distinct, forall|k: int| 0 <= k < i ==> #[trigger] this.pfactors_and_counts.v@[k] == that.pfactors_and_counts.v@[k]
@dec that.num_distinct - i
@exit assert(tfs(ret) =~= tfs(*that));
@fn inst::tfacinfo<int>::operator=(const tfacinfo<int> &)
@requires tfok(*old(this)), tfok(*that)
@ensures tfok(*final(this)), tfs(*final(this)) == tfs(*that), final(this).have_unit == that.have_unit, final(this).unit == that.unit
@loop 0
@inv 0 <= i <= that.num_distinct, tfok(*that), this.pfactors_and_counts.st is Live, this.pfactors_and_counts.v@.len() == that.num_distinct, this.num_distinct == that.num_distinct, this.num_allocated == that.num_distinct, forall|k: int| 0 <= k < i ==> #[trigger] this.pfactors_and_counts.v@[k] == that.pfactors_and_counts.v@[k]
@dec that.num_distinct - i
@exit assert(tfs(*this) =~= tfs(*that));
@fn inst::tfacinfo<int>::get_num_distinct() const
@ensures ret == this.num_distinct
@fn inst::tfacinfo<int>::get_num_factors() const
@requires tfst(*this), cntok(tfs(*this)), psum(tfs(*this)) <= 0x7fff_ffff
@ensures ret == psum(tfs(*this))
@entry lemma_pre(tfs(*this));
@loop 0
@inv 0 <= i <= this.num_distinct, tfst(*this), cntok(tfs(*this)), psum(tfs(*this)) <= 0x7fff_ffff, rv == psum(pre(tfs(*this), i as int)), rv >= 0
@dec this.num_distinct - i
@top let s = tfs(*this); lemma_prod_step(s, i as int); lemma_psum_mono(s, i as int + 1); assert(s[i as int] == this.pfactors_and_counts.v@[i as int]);
@fn inst::tfacinfo<int>::bounds_check(int) const
@throws which < 0 || which >= this.num_distinct
@fn inst::tfacinfo<int>::get_ith_factor(int) const
@requires tfst(*this)
@throws which < 0 || which >= this.num_distinct
@ensures ret == tfs(*this)[which as int].factor
@fn inst::tfacinfo<int>::get_ith_count(int) const
@requires tfst(*this)
@throws which < 0 || which >= this.num_distinct
@ensures ret == tfs(*this)[which as int].count
@fn inst::tfacinfo<int>::get_unit(int &) const
@ensures ret == (this.have_unit != 0), ret ==> *final(runit) == this.unit, !ret ==> *final(runit) == *old(runit)
@fn inst::tfacinfo<int>::find(const int &, int &)
@requires tfok(*old(this))
@ensures *final(this) == *old(this), 0 <= *final(ridx) <= old(this).num_distinct, ret ==> *final(ridx) < old(this).num_distinct && tfs(*old(this))[*final(ridx) as int].factor == e, !ret ==> (forall|j: int| 0 <= j < *final(ridx) ==> (#[trigger] tfs(*old(this))[j]).factor < e) && (*final(ridx) < old(this).num_distinct ==> e < tfs(*old(this))[*final(ridx) as int].factor)
@loop 0
@inv 0 <= i <= this.num_distinct, *this == *old(this), tfok(*this), forall|j: int| 0 <= j < i ==> (#[trigger] tfs(*this)[j]).factor < e
@dec this.num_distinct - i
@top assert(tfs(*this)[i as int] == this.pfactors_and_counts.v@[i as int]);
@fn inst::tfacinfo<int>::insert_factor(const int &)
@requires tfok(*old(this)), tfroom(*old(this)), i32::MIN <= mult(tfs(*old(this)), e as int) < 0x7fff_ffff
@ensures tfins(*old(this), *final(this), e, 1)
@fn inst::tfacinfo<int>::insert_factor(const int &, int)
@requires tfok(*old(this)), tfroom(*old(this)), i32::MIN <= mult(tfs(*old(this)), e as int) + count <= i32::MAX
@ensures tfins(*old(this), *final(this), e, count)
@entry
let ghost o = *this;
let ghost s0 = tfs(o);
let ghost mut ii: int = 0;
@aftercall find 0 ii = idx as int; if 0 <= ii < s0.len() && s0[ii].factor == e { lemma_mult_at(s0, ii); lemma_addc(s0, ii, count as int); lemma_incr_add(s0, ii, count as int); } else { lemma_ins(s0, ii, e, count); lemma_incr_ins(s0, ii, e, count); lemma_nohas(s0, e as int, ii); }
@loop 0
@inv 0 <= i <= this.num_distinct, this.num_distinct == o.num_distinct, temp.st is Live, temp.v@ == o.pfactors_and_counts.v@, this.pfactors_and_counts.st is Live, this.pfactors_and_counts.v@.len() == this.num_allocated, this.num_allocated == o.num_allocated + 20, o.num_distinct == o.num_allocated, this.have_unit == o.have_unit, this.unit == o.unit, forall|k: int| 0 <= k < i ==> #[trigger] this.pfactors_and_counts.v@[k] == o.pfactors_and_counts.v@[k]
@dec this.num_distinct - i
@loop 1
@inv idx <= i <= this.num_distinct, 0 <= idx, idx == ii, this.num_distinct == o.num_distinct, this.pfactors_and_counts.st is Live, this.pfactors_and_counts.v@.len() == this.num_allocated, this.num_distinct < this.num_allocated, this.num_allocated <= o.num_allocated + 20, this.have_unit == o.have_unit, this.unit == o.unit, forall|k: int| 0 <= k < i ==> #[trigger] this.pfactors_and_counts.v@[k] == s0[k], forall|k: int| i < k <= o.num_distinct ==> #[trigger] this.pfactors_and_counts.v@[k] == s0[k - 1]
@dec i
@exit if ii < s0.len() && s0[ii].factor == e { assert(tfs(*this) =~= fadd(s0, ii, count as int)); lemma_hasadd(s0, ii, count as int); } else { assert(tfs(*this) =~= finsert(s0, ii, e, count)); lemma_hasins(s0, ii, e, count); }
@fn inst::tfacinfo<int>::insert_unit(const int &)
@requires old(this).have_unit != 0 ==> -0x8000_0000 <= old(this).unit * e <= 0x7fff_ffff
@ensures final(this).have_unit != 0, final(this).unit == (if old(this).have_unit != 0 { old(this).unit * e } else { e as int }), final(this).pfactors_and_counts == old(this).pfactors_and_counts, final(this).num_distinct == old(this).num_distinct, final(this).num_allocated == old(this).num_allocated
@fn inst::tfacinfo<int>::tf_exp(int, int) const
@requires e >= 0 ==> -0x8000_0000 < pw(x as int, e as nat) < 0x8000_0000, e < 0 ==> x == 0 || x == 1 || x == -1 || e == i32::MIN, -0x4000_0000 <= x
@throws (x == 0 && e <= 0) || e == i32::MIN
@ensures e >= 0 ==> ret == pw(x as int, e as nat), e < 0 ==> ret == (if x == 1 || e % 2 == 0 { 1int } else { -1int })
@entry lemma_pw_abs(x as int, abs_(e as int) as nat); if e < 0 { lemma_pwneg(x as int, abs_(e as int) as nat); }
@loop 0
@before if e__in < 0 { assert(e == -e__in); assert(x == 1 || x == -1); assert(one == 1); assert(xp == x); } assert(1 * pw(xp as int, e as nat) == pw(xp as int, e as nat));
@inv e >= 0, x != 0, xp != 0, -0x8000_0000 < pw(x as int, abs_(e__in as int) as nat) < 0x8000_0000, pw(x as int, abs_(e__in as int) as nat) != 0, rv as int * pw(xp as int, e as nat) == pw(x as int, abs_(e__in as int) as nat)
@dec e
@top lemma_pow_step(x as int, pw(x as int, abs_(e__in as int) as nat), rv as int, xp as int, e as nat); lemma_i32_half(e);
@after assert(pw(xp as int, 0) == 1);
@fn inst::tfacinfo<int>::exp_all(int)
@requires tfok(*old(this)), forall|k: int| 0 <= k < old(this).num_distinct ==> -0x8000_0000 <= (#[trigger] tfs(*old(this))[k]).count * power <= 0x7fff_ffff, old(this).have_unit != 0 ==> (old(this).unit == 1 || old(this).unit == -1) && power > i32::MIN
@ensures tfok(*final(this)), final(this).num_distinct == old(this).num_distinct, final(this).have_unit == old(this).have_unit, old(this).have_unit != 0 ==> final(this).unit == (if old(this).unit == 1 || power % 2 == 0 { 1int } else { -1int }), forall|k: int| 0 <= k < old(this).num_distinct ==> (#[trigger] tfs(*final(this))[k]).factor == tfs(*old(this))[k].factor && tfs(*final(this))[k].count == tfs(*old(this))[k].count * power
@entry
let ghost o = *this;
let ghost s0 = tfs(o);
lemma_pwneg(1, abs_(power as int) as nat); lemma_pwneg(-1, abs_(power as int) as nat);
@loop 0
@inv 0 <= i <= this.num_distinct, this.num_distinct == o.num_distinct, tfst(*this), this.have_unit == o.have_unit, forall|k: int| 0 <= k < i ==> (#[trigger] this.pfactors_and_counts.v@[k]).factor == s0[k].factor && this.pfactors_and_counts.v@[k].count == s0[k].count * power, forall|k: int| i <= k < o.num_distinct ==> #[trigger] this.pfactors_and_counts.v@[k] == s0[k]
@dec this.num_distinct - i
@exit assert forall|a: int, b: int| 0 <= a < b < tfs(*this).len() implies (#[trigger] tfs(*this)[a]).factor < (#[trigger] tfs(*this)[b]).factor by { assert(tfs(*this)[a].factor == s0[a].factor && tfs(*this)[b].factor == s0[b].factor); }
@fn inst::tfacinfo<int>::merge(const tfacinfo<int> &)
@requires tfok(*old(this)), tfok(*that), old(this).num_allocated + 20 * that.num_distinct < 0x7fff_0000, cntok(tfs(*old(this))), cntok(tfs(*that)), forall|k: int| #[trigger] mult(tfs(*old(this)), k) + mult(tfs(*that), k) <= 0x7fff_ffff, old(this).have_unit != 0 && that.have_unit != 0 ==> -0x8000_0000 <= old(this).unit * that.unit <= 0x7fff_ffff
@ensures tfok(*final(this)), forall|k: int| #[trigger] mult(tfs(*final(this)), k) == mult(tfs(*old(this)), k) + mult(tfs(*that), k), prod(tfs(*final(this))) == prod(tfs(*old(this))) * prod(tfs(*that)), (final(this).have_unit != 0) == (old(this).have_unit != 0 || that.have_unit != 0), final(this).have_unit != 0 ==> final(this).unit == (if old(this).have_unit == 0 { that.unit as int } else if that.have_unit == 0 { old(this).unit as int } else { old(this).unit * that.unit })
@entry
let ghost o = *this;
let ghost s0 = tfs(o);
let ghost st = tfs(*that);
lemma_pre(st);
@loop 0
@inv 0 <= i <= that.num_distinct, tfok(*this), tfok(*that), st == tfs(*that), this.num_allocated <= o.num_allocated + 20 * i, o.num_allocated + 20 * that.num_distinct < 0x7fff_0000, cntok(tfs(*this)), cntok(st), this.have_unit == o.have_unit, this.unit == o.unit, forall|k: int| #[trigger] mult(tfs(*this), k) == mult(s0, k) + mult(pre(st, i as int), k), prod(tfs(*this)) == prod(s0) * prod(pre(st, i as int)), forall|k: int| #[trigger] mult(s0, k) + mult(st, k) <= 0x7fff_ffff
@dec that.num_distinct - i
@top let f = st[i as int].factor as int; assert(st[i as int] == that.pfactors_and_counts.v@[i as int]); lemma_prod_step(st, i as int); lemma_mult_pre(st, i as int); lemma_mult_nonneg(tfs(*this), f); assert(mult(tfs(*this), f) == mult(s0, f) + mult(pre(st, i as int), f)); assert(mult(s0, f) + mult(st, f) <= 0x7fff_ffff); assert(mult(pre(st, i as int + 1), f) <= mult(st, f)); lemma_mult_nonneg(st, f);
@end let f = st[i as int]; let (a, b, c) = (prod(s0), prod(pre(st, i as int)), fpw_(f)); assert((a * b) * c == a * (b * c)) by(nonlinear_arith);
@fn inst::tfacinfo<int>::unfactor(const int &) const
@requires tfok(*this), cntok(tfs(*this)), one == 1, prod(tfs(*this)) <= 0x7fff_ffff, forall|j: int| 0 <= j < this.num_distinct ==> (#[trigger] tfs(*this)[j]).count < 0x7fff_ffff, this.have_unit != 0 ==> this.unit == 1 || this.unit == -1 || (this.num_distinct == 0)
@ensures ret == prod(tfs(*this)) * (if this.have_unit != 0 { this.unit as int } else { 1 })
@entry
let ghost s = tfs(*this);
let ghost u: int = if this.have_unit != 0 { this.unit as int } else { 1 };
lemma_pre(s); lemma_prod_mono(s, 0);
@loop 0
@inv 0 <= i <= this.num_distinct, s == tfs(*this), tfst(*this), cntok(s), prod(s) <= 0x7fff_ffff, forall|j: int| 0 <= j < this.num_distinct ==> (#[trigger] s[j]).count < 0x7fff_ffff, u == (if this.have_unit != 0 { this.unit as int } else { 1 }), rv == prod(pre(s, i as int)) * u, u == 1 || u == -1 || this.num_distinct == 0
@dec this.num_distinct - i
@top lemma_prod_step(s, i as int); lemma_prod_mono(s, i as int); lemma_prod_mono(s, i as int + 1); assert(s[i as int] == this.pfactors_and_counts.v@[i as int]); lemma_pw_pos(s[i as int].factor as int, s[i as int].count as nat); let (a, b) = (prod(pre(s, i as int)), fpw_(s[i as int])); assert(b <= a * b && a <= a * b) by(nonlinear_arith) requires a >= 1, b >= 1; assert((a * u) * b == (a * b) * u) by(nonlinear_arith);
@loop 1
@inv 1 <= j <= power + 1, power >= 0, f >= 1, fpower == pw(f as int, (j - 1) as nat), power < 0x7fff_ffff, pw(f as int, power as nat) <= 0x7fff_ffff, fpower >= 1
@dec power + 1 - j
@top lemma_pw_le(f as int, j as nat, power as nat); assert(pw(f as int, j as nat) == f * pw(f as int, (j - 1) as nat)); assert(f * fpower == fpower * f) by(nonlinear_arith);
@fn inst::tfacinfo<int>::get_num_divisors() const
@requires tfok(*this), cntok(tfs(*this)), ndiv(tfs(*this)) <= 0x7fff_ffff
@throws this.num_distinct == 0 && this.have_unit == 0
@ensures ret == ndiv(tfs(*this))
@entry
let ghost s = tfs(*this);
lemma_pre(s);
@loop 0
@inv 0 <= i <= this.num_distinct, s == tfs(*this), tfst(*this), cntok(s), ndiv(s) <= 0x7fff_ffff, rv == ndiv(pre(s, i as int))
@dec this.num_distinct - i
@top lemma_prod_step(s, i as int); lemma_prod_mono(s, i as int + 1); lemma_prod_mono(s, i as int); assert(s[i as int] == this.pfactors_and_counts.v@[i as int]); let (a, b) = (ndiv(pre(s, i as int)), s[i as int].count + 1); assert(b <= a * b) by(nonlinear_arith) requires a >= 1, b >= 1;
@fn inst::tfacinfo<int>::get_kth_divisor(int, int) const
@requires tfok(*this), cntok(tfs(*this)), k >= 0, one == 1, prod(tfs(*this)) <= 0x3fff_ffff, forall|j: int| 0 <= j < this.num_distinct ==> (#[trigger] tfs(*this)[j]).count < 0x7fff_ffff
@throws this.num_distinct == 0 && this.have_unit == 0
@ensures this.num_distinct > 0 ==> ret == kdv(tfs(*this), k as int, this.num_distinct as int), this.num_distinct == 0 ==> ret == 1
@entry
let ghost s = tfs(*this);
lemma_pre(s); lemma_prod_mono(s, 0);
@loop 0
@inv 0 <= i <= this.num_distinct, s == tfs(*this), tfst(*this), cntok(s), prod(s) <= 0x3fff_ffff, k == dig(s, k__in as int, i as int), rv == kdv(s, k__in as int, i as int), k >= 0, k__in >= 0, forall|j: int| 0 <= j < this.num_distinct ==> (#[trigger] tfs(*this)[j]).count < 0x7fff_ffff
@dec this.num_distinct - i
@top assert(s[i as int] == this.pfactors_and_counts.v@[i as int]); lemma_kdv(s, k__in as int, i as int); lemma_kdv(s, k__in as int, i as int + 1); lemma_prod_mono(s, i as int + 1); lemma_prod_mono(s, i as int); lemma_prod_step(s, i as int); lemma_kbound(s, k__in as int, i as int);
@fn factorization::int_factor(int)
@requires n > i32::MIN
@ensures tfok(ret), primef(tfs(ret)), n != 0 ==> prod(tfs(ret)) * (if ret.have_unit != 0 { ret.unit as int } else { 1 }) == n, n == 0 ==> ret.have_unit != 0 && ret.unit == 0 && ret.num_distinct == 0, ret.have_unit != 0 ==> ret.unit == -1 || ret.unit == 0 || ret.unit == 1
@entry
let ghost a0: int = abs_(n as int);
let ghost mut fl: tfacinfo_i32 = arbitrary();
lemma_np(); lemma_upto_65536();
@loop 0
@before assert(tfs(finfo).len() == 0);
@inv 0 <= i <= 6542, np() == 6542, tab_in(2, 65536, 0, 6542), n >= 1, a0 == abs_(n__in as int), 2 <= a0 <= 0x7fff_ffff, tfok(finfo), primef(tfs(finfo)), cntok(tfs(finfo)), finfo.num_distinct <= i, finfo.num_allocated <= 20 + 20 * i, prod(tfs(finfo)) * n == a0, psum(tfs(finfo)) + n <= a0, n == 1 || tab_free(n as int, i as int), finfo.have_unit != 0 ==> finfo.unit == -1 && n__in < 0, finfo.have_unit == 0 ==> n__in > 0
@dec 6542 - i
@top
let ghost n0: int = n as int;
let ghost fo = finfo;
assert(is_prime(tp(i as int)));
@aftercall insert_factor 0 lemma_primef_ins(fo, finfo, p, count); let (x, y, z) = (prod(tfs(fo)), pw(p as int, count as nat), n as int); assert((x * y) * z == x * (z * y)) by(nonlinear_arith); if n != 1 { assert forall|j: int| 0 <= j < i + 1 implies !dvd(#[trigger] tp(j), n as int) by { if j < i { assert(is_prime(tp(j))); if dvd(tp(j), n as int) { lemma_dvd_trans(tp(j), n as int, n0); } } } }
@loop 1
@inv n >= 1, p >= 2, count >= 0, n0 >= 1, n0 <= 0x7fff_ffff, n * pw(p as int, count as nat) == n0, count + n <= n0, dvd(n as int, n0)
@dec n
@top let (m, q) = (n as int, n as int / p as int); let y = pw(p as int, count as nat); assert(m == p as int * q) by(nonlinear_arith) requires q == m / p as int, m % p as int == 0, p >= 2; assert(1 <= q && q + 1 <= m) by(nonlinear_arith) requires m == p as int * q, m >= 1, p >= 2; assert(q * (p as int * y) == (p as int * q) * y) by(nonlinear_arith); assert(pw(p as int, (count + 1) as nat) == p as int * y); lemma_mod_multiples_basic(p as int, q); assert(dvd(q, m)); lemma_dvd_trans(q, m, n0);
@after assert(pw(p as int, 0) == 1); if count == 0 { assert(n == n0); assert(false); }
@beforecall insert_factor 0 lemma_mult_psum(tfs(finfo), p as int);
@beforecall insert_factor 1 fl = finfo; lemma_mult_psum(tfs(finfo), n as int);
@aftercall insert_factor 1 lemma_tab_prime(n as int, 6542); lemma_primef_ins(fl, finfo, n, 1); assert(pw(n as int, 1) == n * pw(n as int, 0)); assert(pw(n as int, 0) == 1);
@exit let x = prod(tfs(ret)); let n1 = n as int; if n == 1 { assert(x * n1 == x) by(nonlinear_arith) requires n1 == 1; } assert(x * 1 == x && x * -1 == -x); let (y, z) = (prod(tfs(fl)), n as int); assert(y * (z * 1) == y * z) by(nonlinear_arith);
