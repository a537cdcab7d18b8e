# C23: random elements. The generator's word is arbitrary: its contract promises nothing about the value.
@fn random::get_random_int()
@flag extern
@fn random::get_random_uint32()
@fn random::intmod_random(int)
@throws m < 2
@ensures mset(ret), ret.modulus == m
@fn random::fp_poly_random(int, int)
@requires p >= 2, deg < fpmax()
@throws deg < 0
@ensures fpok(ret), fpm(ret) == p, ret.degree == deg
@entry lemma_small_mod(1, p as nat); lemma_small_mod(0, p as nat);
@loop 0
@inv -1 <= i <= deg, mset(zero), zero.residue == 0, zero.modulus == p, mset(one), one.residue == 1, one.modulus == p, i == deg ==> fpok(rv) && fpm(rv) == p && rv.degree == 0, i < deg ==> fpok(rv) && fpm(rv) == p && rv.degree == deg && fpp(rv)(deg as int) != 0
@dec i + 1
@aftercall set_coeff 0 lemma_fplead(rv); assert(fpp(rv)(deg as int) != 0);
@fn random::fp_polymod_random(const spffl::polynomials::fp_poly_t &)
@requires fpok(*m), fld(fpm(*m)), 4 * m.degree < fpmax() - 8
@throws m.degree < 1
@ensures fmok(ret), fmm(ret) == fpp(*m), fmp(ret) == fpm(*m)
@fn random::f2_poly_random(int)
@requires deg < 64 * f2max()
@throws deg < 0
@ensures f2ok(ret.parts@), isdeg(f2p(ret.parts@), deg as int), f2p(ret.parts@)(deg as int) == 1, ret.parts@.len() <= deg as int / 64 + 1
@loop 0
@inv -1 <= i < deg, f2ok(rv.parts@), isdeg(f2p(rv.parts@), deg as int), f2p(rv.parts@)(deg as int) == 1, rv.parts@.len() <= deg as int / 64 + 1
@dec i + 1
@fn random::f2_polymod_random(const spffl::polynomials::f2_poly_t &)
@requires f2msz(m.parts@)
@throws f2deg(m.parts@) < 1
@ensures f2mok(ret), f2m(ret) == f2p(m.parts@)
@entry lemma_f2isdeg(m.parts@);
