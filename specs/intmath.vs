# Contracts for spffl/intmath free functions.
@fn intmath::int_gcd(int, int)
@requires
  a > i32::MIN, b > i32::MIN,
@ensures
  is_gcd(ret as int, a as int, b as int),
  (a != 0 && b != 0) ==> ret >= 1,
  a == 0 ==> ret == b,
  b == 0 ==> ret == a,
@entry
  lemma_gcd_zero(a as int, b as int);
@loop 0
@inv
  a >= 1, b >= 1,
  forall|d: int| #[trigger] cdiv(d, a as int, b as int) <==> cdiv(d, a__in as int, b__in as int),
@dec b
@before
  lemma_cdiv_abs(a as int, b as int, a__in as int, b__in as int);
@top
  lemma_euclid_step(a as int, b as int);
@lens trem(a as int, b as int) == 0
@exit
  if a__in != 0 && b__in != 0 { lemma_gcd_from_cdiv(b as int, a as int, b as int, a__in as int, b__in as int); }

@fn intmath::gcd(const int, const int)
@requires
  a > i32::MIN, b > i32::MIN,
@ensures
  is_gcd(ret as int, a as int, b as int),
  (a != 0 && b != 0) ==> ret >= 1,

@fn intmath::int_ext_gcd(int, int, int &, int &)
@requires
  a > i32::MIN, b > i32::MIN,
@ensures
  is_gcd(ret as int, a as int, b as int),
  *final(m) * a + *final(n) * b == ret,
@entry
  lemma_gcd_zero(a as int, b as int);
@loop 0
@before
  lemma_ext_init(a as int, b as int);
@inv
  d != 0, c > i32::MIN, d > i32::MIN,
  ext_inv(a as int, b as int, mprime as int, nprime as int, *m as int, *n as int, c as int, d as int),
  forall|x: int| #[trigger] cdiv(x, c as int, d as int) <==> cdiv(x, a as int, b as int),
@dec (if d < 0 { -d } else { d as int })
@top
  lemma_euclid_step(c as int, d as int);
  lemma_trem(c as int, d as int);
  lemma_tdiv_bound(c as int, d as int);
  lemma_ext_step(a as int, b as int, mprime as int, nprime as int, *m as int, *n as int, c as int, d as int);
@lens trem(c as int, d as int) == 0, ext_inv(a as int, b as int, mprime as int, nprime as int, *m as int, *n as int, c as int, d as int)
@exit
  if b != 0 { lemma_gcd_from_cdiv(d as int, c as int, d as int, a as int, b as int); }
  else { assert(1 * a + 0 * b == a); }

@fn intmath::int_lcm(int, int)
@requires
  a > i32::MIN, b > i32::MIN,
  lcm_fits(a as int, b as int),
@ensures
  (a == 0 || b == 0) ==> ret == 0,
  (a != 0 && b != 0) ==> is_lcm(ret as int, a as int, b as int),
@entry
  if a != 0 && b != 0 { lemma_lcm(a as int, b as int); }

@fn intmath::int_power(int, int)
@requires
  e >= 0, -0x8000_0000 < pw(b as int, e as nat) < 0x8000_0000,
@ensures
  ret as int == pw(b as int, e as nat),
@entry
  lemma_pw_abs(b as int, e as nat);
@loop 0
@inv
  e >= 0, rv as int * pw(b2 as int, e as nat) == pw(b as int, e__in as nat),
  b == 0 ==> ((b2 == 0 && (rv == 0 || rv == 1)) || e == 0),
  b != 0 ==> (b2 != 0 && pw(b as int, e__in as nat) != 0),
@dec e
@top
  lemma_pow_step(b as int, pw(b as int, e__in as nat), rv as int, b2 as int, e as nat);
  lemma_i32_half(e);
@after
  assert(pw(b2 as int, 0) == 1);

@fn intmath::int_totient(int)
@requires
  n >= 0,
@ensures
  ret as int == totient(n as int),
  0 <= ret, n >= 1 ==> ret < n,
@entry
  lemma_cop_bound(n as int, n as int);
  assert(cop_count(n as int, 1) == 0);
@loop 0
@inv
  1 <= i, n >= 1 ==> i <= n, n == 0 ==> i == 1, phi as int == cop_count(n as int, i as int),
@dec n - i
@top
  lemma_cop_bound(n as int, i as int);
  assert(cop_count(n as int, i + 1) == cop_count(n as int, i as int) + (if coprime(n as int, i as int) { 1int } else { 0 }));
@aftercall int_gcd 0
  lemma_coprime_test($ret as int, n as int, i as int);

@fn intmath::int_sqrt(int, bool)
@throws nsigned < 0
@ensures
  want_ceil ==> is_csqrt(ret as int, nsigned as int),
  !want_ceil ==> is_fsqrt(ret as int, nsigned as int),
@loop 0
@inv
  half_log <= 16, nsv as int == (n as int) / (p4(half_log as nat) as int),
  n >= 1, n < 0x8000_0000, n as int >= p4(half_log as nat) || nsv == 0,
  nsv == 0 ==> (half_log >= 1 && n as int >= p4((half_log - 1) as nat)),
@dec nsv
@before
  assert(p4(0) == 1);
@top
  lemma_sqrt_scan(n as int, half_log as nat);
  lemma_sqrt_scan(n as int, (half_log + 1) as nat);
  assert(nsv >> 2 == nsv / 4) by(bit_vector);
@after
  lemma_sqrt_start(n as int, half_log as nat);
@loop 1
@inv
  sqrt_inv(n as int, lower as int, upper as int, diff as int), n == nsigned, lower <= 65535, upper <= 65536,
@dec diff
@before
  lemma_shl_p2_32(half_log as u32);
  assert(lower << 1 == 2 * lower) by(bit_vector) requires lower <= 32768;
@top
  assert(diff >> 1 == diff / 2) by(bit_vector);
  lemma_sqrt_step(n as int, lower as int, upper as int, diff as int);
@exit
  lemma_sqrt_exit(n as int, lower as int, upper as int, diff as int, ret as int);

@fn intmath::int_sqrt_ceil(int)
@throws nsigned < 0
@ensures is_csqrt(ret as int, nsigned as int)
@fn intmath::int_sqrt_floor(int)
@throws nsigned < 0
@ensures is_fsqrt(ret as int, nsigned as int)

# ---- C04
@fn intmath::find_msb_16(unsigned short)
@ensures n >= 1 ==> (ret < 16 && is_msb(ret as int, n as int))
@exit lemma_p2_all();
@fn intmath::find_msb_32(unsigned int)
@ensures n >= 1 ==> (ret < 32 && is_msb(ret as int, n as int)), n == 0 ==> ret == 0
@exit lemma_p2_all();
@fn intmath::find_msb_64(uint64_t)
@ensures n >= 1 ==> (ret < 64 && is_msb(ret as int, n as int)), n == 0 ==> ret == 0
@exit lemma_p2_all(); lemma_p2_64(ret as nat);
@fn intmath::find_lsb_32(unsigned int)
@ensures ret < 32, n >= 1 ==> is_lsb(ret as int, n as int)
@exit if n__in >= 1 { lemma_lsbf32(n__in as int); }
@fn intmath::find_lsb_64(uint64_t)
@ensures n >= 1 ==> (ret < 64 && is_lsb(ret as int, n as int))
@exit lemma_p2_64(ret as nat); lemma_lsb_comp(n as int, 32, ret as int); assert(p2(32) == 0x1_0000_0000) by(compute);
@fn intmath::calc_log2_unsigned_floor(unsigned int)
@requires n >= 1
@ensures is_msb(ret as int, n as int)
@fn intmath::calc_log2_unsigned_ceil(unsigned int)
@requires n >= 1
@ensures is_clog2(ret as int, n as int)
@entry lemma_p2_all();
@exit lemma_p2_64(ret as nat);
@fn intmath::calc_log2_unsigned_ll_floor(uint64_t)
@requires n >= 1
@ensures is_msb(ret as int, n as int)
@fn intmath::calc_log2_unsigned_ll_ceil(uint64_t)
@requires n >= 1
@ensures is_clog2(ret as int, n as int)
@entry lemma_p2_all();
@exit lemma_p2_64(ret as nat);
@fn intmath::calc_log10_unsigned_floor(unsigned int)
@requires n >= 1
@ensures is_flog10(ret as int, n as int)
@loop 0
@inv p10(rv as nat) * n <= n__in / 10, n__in / 10 < p10(rv as nat) * (n + 1), rv <= 10, p10(rv as nat) >= 1, (n == 0 && rv >= 1) ==> n__in / 10 >= p10((rv - 1) as nat)
@dec n
@before assert(p10(0) == 1);
@top lemma_log10_step(n as int, (n__in / 10) as int, rv as nat);
@exit assert(p10(rv as nat) * 1 == p10(rv as nat)); lemma_log10_exit(n__in as int, rv as nat);

@fn bits::count_one_bits(unsigned char *, int)
@requires p.st is Live, 0 <= nbytes <= p.v@.len(), nbytes < 0x1000_0000
@ensures ret as int == ones_upto(p.v@, nbytes as int)
@loop 0
@inv 0 <= i <= nbytes, rv as int == ones_upto(p.v@, i as int)
@dec nbytes - i
@top lemma_ones_bound(p.v@, i as int); lemma_ones_table(); assert(tbls_byte_num_one_bits(p.v@[i as int] as int) == popcount(p.v@[i as int] as int)); lemma_pop8(p.v@[i as int] as int);

# ---- C03
@fn intmath::isprime_trial(int)
@requires n > i32::MIN
@ensures ret == is_prime(abs_(n as int))
@entry lemma_small_primes(abs_(n as int));
@loop 0
@inv n as int == abs_(n__in as int), n >= 5, n % 2 == 1, d >= 3, d % 2 == 1, no_div(n as int, d as int),
  0 <= q <= n, d == 3 ==> q == n, d > 3 ==> q as int == n as int / (d as int - 2), d <= 46344
@dec n + 4 - d
@top lemma_trial_step(n as int, d as int); if d > 3 { lemma_trial_bound(n as int, d as int, q as int); }
@exit if n as int == abs_(n__in as int) && n >= 5 && d >= 3 && no_div(n as int, d as int) { if d >= 5 && q as int == n as int / (d as int - 2) { lemma_trial_bound(n as int, d as int, q as int); if d > q { lemma_prime_sqrt(n as int, d as int); } } }

@fn intmath::isprime_table(int)
@requires n > i32::MIN
@ensures ret == is_prime(abs_(n as int))
@entry lemma_np(); lemma_upto_65536(); lemma_small_primes(abs_(n as int));
@loop 0
@inv 0 <= i <= 6542, un as int == abs_(n__in as int), un >= 2, n as int == un as int, tab_free(un as int, i as int)
@dec 6542 - i
@top assert(tab_in(2, 65536, 0, 6542)); assert(2 <= tp(i as int) < 65536 && is_prime(tp(i as int))); assert(0 <= tp(i as int) * tp(i as int) <= 65535 * 65535) by(nonlinear_arith) requires 2 <= tp(i as int) < 65536; if tp(i as int) * tp(i as int) > un as int { if !dvd(tp(i as int), un as int) { lemma_tab_prime(un as int, i as int); } }
 if dvd(tp(i as int), un as int) && un as int != tp(i as int) { lemma_dvd_mul(tp(i as int), un as int); assert(tp(i as int) < un as int) by(nonlinear_arith) requires un as int == tp(i as int) * (un as int / tp(i as int)), un >= 2, un as int != tp(i as int), tp(i as int) >= 2; }
@after if i == 6542 { lemma_tab_prime(un as int, 6542); }

@fn intmath::is_prime(int)
@requires n > i32::MIN
@ensures ret == is_prime(abs_(n as int))

@fn intmath::nth_prime(int)
@throws n < 1 || n > 6542
@ensures is_prime(ret as int), pcount(ret as int) == n - 1
@entry lemma_np(); lemma_upto_65536();
@exit assert(tab_in(2, 65536, 0, 6542)); if 1 <= n <= 6542 { assert(is_prime(tp(n - 1)) && pcount(tp(n - 1)) == n - 1); }
