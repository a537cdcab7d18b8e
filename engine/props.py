I='spffl/intmath/'
UNITS = {
 'C01': dict(tus=[I+'int_gcd.cpp'], specs=['intmath.vs'], libs=['lib_int.rs'], roots=['intmath::int_gcd(int, int)','intmath::gcd(const int, const int)','intmath::int_ext_gcd(int, int, int &, int &)','intmath::int_lcm(int, int)']),
 'C02': dict(tus=[I+'int_gcd.cpp',I+'int_power.cpp',I+'int_sqrt.cpp',I+'int_totient.cpp'], specs=['intmath.vs'], libs=['lib_int.rs'], roots=['intmath::int_power(int, int)','intmath::int_totient(int)','intmath::int_sqrt_ceil(int)','intmath::int_sqrt_floor(int)']),
}
UNITS['C03'] = dict(tus=[I+'is_prime.cpp',I+'primes_16.cpp'], specs=['intmath.vs'], libs=['lib_int.rs','lib_primes.rs','lib_primetable.rs','lib_primewalk.rs'], roots=['intmath::isprime_trial(int)','intmath::isprime_table(int)','intmath::is_prime(int)','intmath::nth_prime(int)'])
UNITS['C04'] = dict(tus=[I+'log2.cpp',I+'log10.cpp','spffl/bits/count_bits.cpp'], specs=['intmath.vs'], libs=['lib_int.rs','lib_bits.rs','lib_bits4.rs'], roots=['intmath::find_msb_16(unsigned short)','intmath::find_msb_32(unsigned int)','intmath::find_msb_64(uint64_t)','intmath::find_lsb_32(unsigned int)','intmath::find_lsb_64(uint64_t)',
 'intmath::calc_log2_unsigned_floor(unsigned int)','intmath::calc_log2_unsigned_ceil(unsigned int)','intmath::calc_log2_unsigned_ll_floor(uint64_t)','intmath::calc_log2_unsigned_ll_ceil(uint64_t)','intmath::calc_log10_unsigned_floor(unsigned int)','bits::count_one_bits(unsigned char *, int)'])

def M(c, *l): return [c + x for x in l]
UNITS['C05'] = dict(tus=[I+'intmod_t.cpp',I+'int_totient.cpp',I+'int_gcd.cpp'], specs=['intmath.vs','intmod.vs'], libs=['lib_int.rs','lib_euler.rs','lib_intmod.rs'], roots=M('intmath::intmod_t::','intmod_t(int, int)','intmod_t()','intmod_t(const intmod_t &)','operator=(const intmod_t &)','prime_subfield_element(int) const','operator+(const intmod_t &) const','operator-(const intmod_t &) const','operator-() const','operator*(const intmod_t &) const','operator+(int) const','operator-(int) const','operator*(int) const','operator==(const intmod_t &) const','operator!=(const intmod_t &) const','operator==(int) const','operator!=(int) const','operator<(const intmod_t &) const','operator<=(const intmod_t &) const','operator>(const intmod_t &) const','operator>=(const intmod_t &) const','get_residue() const','get_modulus() const','recip(intmod_t &) const','operator/(const intmod_t &) const','operator%(const intmod_t &) const','exp(int) const','operator+=(const intmod_t &)','operator+=(const intmod_t &)@0','operator-=(const intmod_t &)','operator-=(const intmod_t &)@0','operator*=(const intmod_t &)','operator*=(const intmod_t &)@0','operator/=(const intmod_t &)','operator/=(const intmod_t &)@0','operator%=(const intmod_t &)','operator%=(const intmod_t &)@0','operator=(const intmod_t &)@0'))

_R=[x for op in '+-*/%' for x in ("operator%s=(const intrat_t &)"%op, "operator%s=(const intrat_t &)@0"%op)]
UNITS['C06'] = dict(tus=[I+'intrat_t.cpp',I+'int_gcd.cpp'], specs=['intmath.vs','intrat.vs'], libs=['lib_int.rs','lib_euler.rs','lib_rat.rs'], roots=M('intmath::intrat_t::','intrat_t(int, int)','intrat_t(int)','intrat_t()','intrat_t(const intrat_t &)','operator=(const intrat_t &)','operator=(const intrat_t &)@0','operator=(int)','operator+(const intrat_t &) const','operator-(const intrat_t &) const','operator-() const','operator*(const intrat_t &)','operator*(const intrat_t &)@0','operator/(const intrat_t &)','operator/(const intrat_t &)@0','operator%(const intrat_t &)','operator%(const intrat_t &)@0','exp(int)','operator==(const intrat_t &) const','operator!=(const intrat_t &) const','operator==(int) const','operator!=(int) const','operator<(const intrat_t &) const','operator<=(const intrat_t &) const','operator>(const intrat_t &) const','operator>=(const intrat_t &) const','get_numerator() const','get_denominator() const',*_R))

B='bits::bit_vector_t::'
UNITS['C16'] = dict(tus=['spffl/bits/bit_vector_t.cpp','spffl/bits/count_bits.cpp',I+'log2.cpp'], specs=['intmath.vs','bitvec.vs'], libs=['lib_int.rs','lib_bits.rs','lib_bits4.rs','lib_word.rs','lib_bv.rs'],
 roots=[B+x for x in ('bit_vector_t()','bit_vector_t(int)','bit_vector_t(const bit_t &, int)','bit_vector_t(int, int)','bit_vector_t(const bit_vector_t &)','operator=(const bit_vector_t &)','operator=(const bit_vector_t &)@0','operator=(const bit_t &)','toggle_element(int)','get(int) const','get_int(int) const','get_bit(int)','set(int, const bit_t &)','set(int, int)','is_zero() const',
 'operator+(const bit_vector_t &)','operator-(const bit_vector_t &)','operator*(const bit_t &)','operator*(const bit_vector_t &)','dot(const bit_vector_t &)','operator+=(const bit_vector_t &)','operator-=(const bit_vector_t &)','operator*=(bit_t)','operator*=(const bit_vector_t &)','operator==(const bit_vector_t &) const','operator!=(const bit_vector_t &) const','operator==(const bit_t &) const','operator!=(const bit_t &) const','find_leader_pos(int &)','ptrswap(bit_vector_t &)','accum_row(bit_vector_t &)','get_num_elements() const')])

F='polynomials::f2_poly_t::'
_F2TU=['spffl/polynomials/f2_poly_t.cpp','spffl/bits/count_bits.cpp',I+'log2.cpp']
_F2LIB=['lib_int.rs','lib_bits.rs','lib_bits4.rs','lib_word.rs','lib_poly.rs','lib_f2.rs']
_F='const f2_poly_t &'
UNITS['C07'] = dict(tus=_F2TU, specs=['intmath.vs','f2poly.vs'], libs=_F2LIB, roots=M(F,'f2_poly_t()','f2_poly_t(int)','f2_poly_t(int, int)','f2_poly_t(int, int, int)','from_base_rep(uint64_t)','f2_poly_t(%s)'%_F,'prime_subfield_element(int) const','operator=(%s)'%_F,'operator=(int)','operator+(%s) const'%_F,'operator-(%s) const'%_F,'operator-() const','operator*(%s) const'%_F,'operator*(int) const','operator+=(%s)'%_F,'operator-=(%s)'%_F,'operator*=(%s)'%_F,'operator*=(int)','operator+=(%s)@0'%_F,'operator-=(%s)@0'%_F,'operator*=(%s)@0'%_F,
 'exp(int) const','deriv() const','square_root(f2_poly_t &) const','eval(int) const','eval(spffl::bits::bit_t) const','find_degree() const','operator==(int) const','operator!=(int) const',*['operator%s(%s) const'%(o,_F) for o in ('==','!=','<','>','<=','>=')],'increment()','set_coeff(int, spffl::bits::bit_t)','set_bit(int)','bit_at(int) const'))
UNITS['C08'] = dict(tus=_F2TU, specs=['intmath.vs','f2poly.vs'], libs=[x for x in _F2LIB if x != 'lib_bits4.rs'], roots=M(F,'quot_and_rem(%s, f2_poly_t &, f2_poly_t &) const'%_F,'operator/(%s) const'%_F,'operator%%(%s) const'%_F,'operator/=(%s)'%_F,'operator%%=(%s)'%_F,'operator/=(%s)@0'%_F,'operator%%=(%s)@0'%_F,'gcd(%s) const'%_F,'ext_gcd(%s, f2_poly_t &, f2_poly_t &) const'%_F))
FM='polynomials::f2_polymod_t::'
_FM='const f2_polymod_t &'
UNITS['C09'] = dict(tus=['spffl/polynomials/f2_polymod_t.cpp']+_F2TU, specs=['intmath.vs','f2poly.vs','f2polymod.vs'], libs=[x for x in _F2LIB if x != 'lib_bits4.rs']+['lib_polymod.rs','lib_f2mlite.rs','lib_f2m.rs'], roots=M(FM,'f2_polymod_t()','f2_polymod_t(%s, %s)'%(_F,_F),'f2_polymod_t(%s)'%_FM,'operator=(%s)'%_FM,'prime_subfield_element(int) const','prime_subfield_element(int, %s)'%_F,'get_residue() const','get_modulus() const','get_characteristic() const','change_modulus(%s)'%_F,'operator-() const','operator*(int) const','operator*=(int)','recip(f2_polymod_t &) const','exp(int) const','operator==(int) const','operator!=(int) const',*['operator%s(%s) const'%(o,_FM) for o in ('+','-','*','/','%','==','!=','<','>','<=','>=')],*['operator%s(%s)%s'%(o,_FM,x) for o in ('+=','-=','*=','/=','%=') for x in ('','@0')]))
FP='polynomials::fp_poly_t::'
_P='const fp_poly_t &'
_E='const spffl::intmath::intmod_t &'
_FPTU=['spffl/polynomials/fp_poly_t.cpp',I+'intmod_t.cpp',I+'int_totient.cpp',I+'int_gcd.cpp']
_FPSP=['intmath.vs','intmod.vs','fppoly.vs']
_FPLIB=['lib_int.rs','lib_euler.rs','lib_intmod.rs','lib_poly.rs','lib_fp.rs']
UNITS['C10'] = dict(tus=_FPTU, specs=_FPSP, libs=_FPLIB, roots=M(FP,'fp_poly_t()',*['fp_poly_t(%s)'%x for x in (_E,', '.join([_E]*2),', '.join([_E]*3),'int, int','int, int, int','int, int, int, int')],'fp_poly_t(%s)'%_P,'operator=(%s)'%_P,'operator=(%s)@0'%_P,'prime_subfield_element(int) const','get_characteristic() const','operator+(%s) const'%_P,'operator-(%s) const'%_P,'operator-() const','operator*(%s) const'%_P,'from_base_rep(int, int)',*['operator%s(%s) const'%(o,_E) for o in '+-*/'],*['operator%s=(%s)%s'%(o,_P,x) for o in '+-*' for x in ('','@0')],*['operator%s=(%s)'%(o,_E) for o in '+-*/'],'find_degree() const','get_coeff(int) const','set_coeff(int, %s)'%_E,'exp(int) const','deriv() const','eval(%s) const'%_E,'operator==(int) const','operator!=(int) const',*['operator%s(%s) const'%(o,_P) for o in ('==','!=','<','>','<=','>=')],'pth_root(fp_poly_t &) const','increment()','promote()','promote_and_add(spffl::intmath::intmod_t)'))
UNITS['C11'] = dict(tus=_FPTU, specs=_FPSP+['fpdiv.vs'], libs=_FPLIB+['lib_fpdiv.rs'], roots=M(FP,'quot_and_rem(const fp_poly_t &, fp_poly_t &, fp_poly_t &) const','operator/(%s) const'%_P,'operator%%(%s) const'%_P,*['operator%s=(%s)%s'%(o,_P,x) for o in '/%' for x in ('','@0')],'gcd(%s) const'%_P,'ext_gcd(const fp_poly_t &, fp_poly_t &, fp_poly_t &) const'))
FPM='polynomials::fp_polymod_t::'
_PM='const fp_polymod_t &'
UNITS['C12'] = dict(tus=['spffl/polynomials/fp_polymod_t.cpp']+_FPTU, specs=_FPSP+['fpdiv.vs','fppolymod.vs'], libs=_FPLIB+['lib_fpdiv.rs','lib_polymod.rs','lib_fpmod.rs'], roots=M(FPM,'fp_polymod_t()','fp_polymod_t(%s, %s)'%(_P,_P),'fp_polymod_t(%s)'%_PM,'operator=(%s)'%_PM,'prime_subfield_element(int) const','prime_subfield_element(int, %s)'%_P,'get_residue() const','get_modulus() const','get_characteristic() const','operator-() const','operator*(int) const','operator*=(int)','operator*(spffl::intmath::intmod_t) const','operator*=(%s)'%_E,'recip(fp_polymod_t &) const','exp(int) const','operator==(int) const','operator!=(int) const',*['operator%s(%s) const'%(o,_PM) for o in ('+','-','*','/','%','==','!=','<','>','<=','>=')],*['operator%s(%s)%s'%(o,_PM,x) for o in ('+=','-=','*=','/=','%=') for x in ('','@0')]))
_SK='inst::tstack<spffl::intmath::intmod_t>::'
UNITS['C30'] = dict(tus=['V/inst/tstack_intmod.cpp',I+'intmod_t.cpp'], specs=['intmath.vs','intmod.vs','stack.vs'], libs=['lib_int.rs','lib_stack.rs'], roots=M(_SK,'tstack()','tstack(const tstack<intmod_t> &)','operator=(const tstack<intmod_t> &)','operator=(const tstack<intmod_t> &)@0','push(const spffl::intmath::intmod_t &)','pop(spffl::intmath::intmod_t &)'))
_TV='inst::tvector<spffl::intmath::intmod_t>::'
_V='const tvector<intmod_t> &'
UNITS['C18'] = dict(tus=['V/inst/tvector_intmod.cpp',I+'intmod_t.cpp',I+'int_totient.cpp',I+'int_gcd.cpp'], specs=['intmath.vs','intmod.vs','tvector.vs'], libs=['lib_int.rs','lib_euler.rs','lib_intmod.rs','lib_tvec.rs'], roots=M(_TV,'tvector()','tvector(int)','tvector(%s, int)'%_E,'tvector(%s)'%_V,'operator=(%s)'%_V,'operator=(%s)@0'%_V,'operator=(const spffl::intmath::intmod_t)','check_equal_lengths(%s) const'%_V,'trim_num_elements(int)','get_num_elements() const','ptrswap(tvector<intmod_t> &)','operator-() const','exp(int) const','mult_by(%s)'%_E,'operator*=(%s)'%_E,'operator/=(%s)'%_E,'operator*(%s) const'%_E,'dot(%s)'%_V,'dot(%s)@0'%_V,'find_leader_pos(%s, int &) const'%_E,'accum_row_mul(spffl::intmath::intmod_t, spffl::intmath::intmod_t, tvector<intmod_t> &)',*['operator%s(%s) const'%(x,_V) for x in '+-*/'],*['operator%s=(%s)%s'%(x,_V,y) for x in '+-*' for y in ('','@0')],*['operator%s(%s) const'%(x,y) for x in ('==','!=') for y in (_V,_E)]))
UNITS['C22'] = dict(bounded=['iran32, iran64, sran32 on the hidden static state'], tus=['spffl/bitrand/psdes.cpp'], specs=['psdes.vs'], libs=['lib_int.rs','lib_psdes.rs'], roots=['bitrand::psdes_hash_64(uint32_t &, uint32_t &)','bitrand::iran32_r(uint32_t &, uint32_t &)','bitrand::iran64_r(uint32_t &, uint32_t &, uint32_t &, uint32_t &)'])
_RN='spffl/random/'
MOD = {I_: c for I_, c in (('intmath::intmod_t::','C05'),('intmath::int_totient','C02'),('intmath::int_','C01'),('bits::','C04'),('intmath::','C04'),('polynomials::f2_poly_t::','C07'),('polynomials::f2_polymod_t::','C09'),('polynomials::fp_poly_t::','C10'),('polynomials::fp_polymod_t::','C12'))}
UNITS['C23'] = dict(bounded=['f2n_poly_random, f2n_polymod_random'], tus=[_RN+x for x in ('intmod_random.cpp','f2_poly_random.cpp','f2_polymod_random.cpp','fp_poly_random.cpp','fp_polymod_random.cpp','int_random.cpp')]+['spffl/polynomials/f2_polymod_t.cpp','spffl/polynomials/fp_polymod_t.cpp']+_F2TU+_FPTU, specs=['intmath.vs','intmod.vs','f2poly.vs','f2polymod.vs','fppoly.vs','fpdiv.vs','fppolymod.vs','random.vs'], libs=['lib_int.rs','lib_euler.rs','lib_intmod.rs','lib_bits.rs','lib_word.rs','lib_poly.rs','lib_f2.rs','lib_polymod.rs','lib_f2mlite.rs','lib_f2m.rs','lib_fp.rs','lib_fpdiv.rs','lib_fpmod.rs'], modular=MOD, roots=M('random::','intmod_random(int)','fp_poly_random(int, int)','fp_polymod_random(const spffl::polynomials::fp_poly_t &)','f2_poly_random(int)','f2_polymod_random(const spffl::polynomials::f2_poly_t &)'))
_TF='inst::tfacinfo<int>::'
UNITS['C21'] = dict(tus=['V/inst/tfacinfo_int.cpp',I+'primes_16.cpp'], specs=['tfacinfo.vs'], libs=['lib_int.rs','lib_primes.rs','lib_primetable.rs','lib_primewalk.rs','lib_tfac.rs'], libs_assumed={'lib_primewalk.rs':'C03'}, bounded=['get_all_divisors, get_maximal_proper_divisors (qsort)', 'factor lists of polynomials'], roots=M(_TF,'tfacinfo()','tfacinfo(const tfacinfo<int> &)','operator=(const tfacinfo<int> &)','operator=(const tfacinfo<int> &)@0','get_num_distinct() const','get_num_factors() const','get_ith_factor(int) const','get_ith_count(int) const','get_unit(int &) const','insert_factor(const int &)','insert_factor(const int &, int)','insert_unit(const int &)','tf_exp(int, int) const','exp_all(int)','merge(const tfacinfo<int> &)','unfactor(const int &) const','get_num_divisors() const','get_kth_divisor(int, int) const')+['factorization::int_factor(int)'])
_Q='const f2_polyrat_t &'
UNITS['C15'] = dict(bounded=['fp_polyrat_t, f2n_polyrat_t'], tus=['spffl/rationals/f2_polyrat_t.cpp']+_F2TU, specs=['intmath.vs','f2poly.vs','f2polyrat.vs'], libs=[x for x in _F2LIB if x != 'lib_bits4.rs']+['lib_polymod.rs','lib_f2mlite.rs','lib_f2q.rs'], modular=MOD, roots=M('rationals::f2_polyrat_t::','f2_polyrat_t(const spffl::polynomials::f2_poly_t &, const spffl::polynomials::f2_poly_t &)','f2_polyrat_t(const spffl::polynomials::f2_poly_t &)','f2_polyrat_t(int)','f2_polyrat_t()','f2_polyrat_t(%s)'%_Q,'prime_subfield_element(int) const','get_characteristic() const','operator=(%s)'%_Q,'operator=(%s)@0'%_Q,'operator=(const spffl::polynomials::f2_poly_t &)','operator+(%s) const'%_Q,'operator-(%s) const'%_Q,'operator-() const',*['operator%s(%s)%s'%(o,_Q,x) for o in '*/%' for x in ('','@0')],'exp(int) const',*['operator%s=(%s)%s'%(o,_Q,x) for o in '+-*/%' for x in ('','@0')],*['operator%s(%s) const'%(o,_Q) for o in ('==','!=','<','>','<=','>=')],*['operator%s(spffl::polynomials::f2_poly_t) const'%o for o in ('==','!=')],'get_numerator() const','get_denominator() const'))
BM='bits::bit_matrix_t::'
_BM='const bit_matrix_t &'
UNITS['C17'] = dict(tus=['spffl/bits/bit_matrix_t.cpp','spffl/bits/bit_vector_t.cpp','spffl/bits/count_bits.cpp',I+'log2.cpp'], specs=['intmath.vs','bitvec.vs','bitmat.vs'], libs=['lib_int.rs','lib_bits.rs','lib_word.rs','lib_bv.rs','lib_bm.rs'], modular={'bits::bit_vector_t::': 'C16', 'bits::count': 'C04', 'intmath::': 'C04'}, bounded=['row reduction and what is built on it (rank, kernel, inverse, determinant, powers)'], roots=M(BM,'bit_matrix_t()','bit_matrix_t(int, int)','bit_matrix_t(bit_t, int, int)','bit_matrix_t(int, int, int)','bit_matrix_t(%s)'%_BM,'operator=(%s)'%_BM,'operator=(%s)@0'%_BM,'operator=(const bit_t &)',*['operator%s(%s) const'%(o,t) for o in ('==','!=','+','-') for t in (_BM,'const bit_t &')],'operator-() const','is_zero() const','is_I() const','is_square() const','get_num_rows() const','get_num_cols() const','check_dims(const bit_matrix_t, const std::string &) const',*['operator%s=(%s)%s'%(o,t,a) for o in '+-' for t,a in ((_BM,''),(_BM,'@0'),('const bit_t &',''))],'transpose() const','make_I() const','swap(int, int)','get_rank_rr() const','operator*(const bit_vector_t &) const','operator*(%s) const'%_BM,'operator*=(%s)'%_BM,'operator*=(%s)@0'%_BM,'outer(const bit_vector_t &, const bit_vector_t &)','paste(bit_matrix_t &) const','split(bit_matrix_t &, bit_matrix_t &, int) const','check_inverse(bit_matrix_t &) const'))
UNITS['C19'] = dict(tus=['V/inst/tmatrix_intmod.cpp',I+'intmod_t.cpp'], specs=['intmath.vs','intmod.vs','tvector.vs','tmatrix.vs'], libs=['lib_int.rs','lib_euler.rs','lib_intmod.rs','lib_tvec.rs','lib_tmat.rs'], modular={'inst::tvector<': 'C18', 'intmath::intmod_t::': 'C05', 'intmath::': 'C01'}, bounded=['row reduction and what is built on it (rank, kernel, inverse, solving, determinant, powers)', 'element types other than intmod_t'], roots=M('inst::tmatrix<spffl::intmath::intmod_t>::','tmatrix()','tmatrix(int, int)','tmatrix(spffl::intmath::intmod_t, int, int)','tmatrix(const tmatrix<intmod_t> &)','get_num_rows() const','get_num_cols() const','is_square() const','trim_num_rows(int)','check_dims(const tmatrix<intmod_t> &, const std::string &) const','operator=(const tmatrix<intmod_t> &)','operator=(const spffl::intmath::intmod_t &)','operator==(const tmatrix<intmod_t> &) const','operator==(const spffl::intmath::intmod_t &) const','operator!=(const tmatrix<intmod_t> &) const','operator!=(const spffl::intmath::intmod_t &) const','operator+(const tmatrix<intmod_t> &) const','operator-(const tmatrix<intmod_t> &) const','operator-() const','operator*(const spffl::intmath::intmod_t &) const','operator+(const spffl::intmath::intmod_t &) const','operator-(const spffl::intmath::intmod_t &) const','get_column(int) const','put_column(int, tvector<intmod_t> &)','transpose() const','flip_horiz() const','flip_vert() const','flip_horiz_vert() const','make_I(spffl::intmath::intmod_t, spffl::intmath::intmod_t) const','outer(const tvector<intmod_t> &, const tvector<intmod_t> &)','paste(const tmatrix<intmod_t> &) const','paste_vector(const tvector<intmod_t> &) const','split(tmatrix<intmod_t> &, tmatrix<intmod_t> &, int) const','swap(int, int)','operator*(const tmatrix<intmod_t> &) const','operator*(const tvector<intmod_t> &) const','operator+=(const tmatrix<intmod_t> &)','operator+=(const spffl::intmath::intmod_t &)','operator-=(const tmatrix<intmod_t> &)','operator-=(const spffl::intmath::intmod_t &)','operator*=(const spffl::intmath::intmod_t &)','operator*=(const tmatrix<intmod_t> &)','operator=(const tmatrix<intmod_t> &)@0','operator+=(const tmatrix<intmod_t> &)@0','operator-=(const tmatrix<intmod_t> &)@0','operator*=(const tmatrix<intmod_t> &)@0'))
FN='polynomials::f2n_poly_t::'
_FN='const f2n_poly_t &'
_F2M='const f2_polymod_t &'
UNITS['C13'] = dict(tus=['spffl/polynomials/f2n_poly_t.cpp']+UNITS['C09']['tus'], specs=['intmath.vs','f2poly.vs','f2polymod.vs','f2npoly.vs'], libs=UNITS['C09']['libs']+['lib_msum.rs','lib_f2n.rs'], modular={'polynomials::f2_polymod_t::': 'C09', 'polynomials::f2_poly_t::': 'C07', 'bits::': 'C04', 'intmath::': 'C04'}, bounded=['division with remainder, gcd, powers, square roots', 'f2n_polymod_t'],
  roots=M(FN,'f2n_poly_t()','f2n_poly_t(%s)'%_F2M,'f2n_poly_t(%s, %s)'%(_F2M,_F2M),'f2n_poly_t(%s, %s, %s)'%(_F2M,_F2M,_F2M),'f2n_poly_t(%s)'%_FN,'operator=(%s)'%_FN,'operator=(%s)@0'%_FN,'get_characteristic() const','find_degree() const','prime_subfield_element(int) const','prime_subfield_element(int, const f2_poly_t &)','recompute_degree()',*['operator%s(%s) const'%(o,t) for o in '+-' for t in (_FN,_F2M)],'operator-() const','operator*(%s) const'%_F2M,'operator/(%s) const'%_F2M,'get_coeff(int) const','bounds_check(int) const','operator*(%s) const'%_FN,*['operator%s=(%s)'%(o,t) for o in '+-*' for t in (_FN,_F2M)],*['operator%s=(%s)@0'%(o,_FN) for o in '+-*'],'deriv() const','eval(%s) const'%_F2M,'set_coeff(int, %s)'%_F2M,'promote()','promote_and_add(%s)'%_F2M,'operator==(int) const','operator!=(int) const','cmp(int, %s) const'%_FN,*['operator%s(%s) const'%(o,_FN) for o in ('==','!=','<','>','<=','>=')]))
GN='polynomials::fpn_poly_t::'
_GN='const fpn_poly_t &'
_FPM='const fp_polymod_t &'
UNITS['C14'] = dict(tus=['spffl/polynomials/fpn_poly_t.cpp']+UNITS['C12']['tus'], specs=UNITS['C12']['specs']+['fpnpoly.vs'], libs=UNITS['C12']['libs']+['lib_msum.rs','lib_fpn.rs'], modular={'polynomials::fp_polymod_t::': 'C12', 'polynomials::fp_poly_t::': 'C10', 'intmath::intmod_t::': 'C05', 'intmath::int_totient': 'C02', 'intmath::': 'C01'}, bounded=['division with remainder, gcd, powers, p-th roots', 'fpn_polymod_t'],
  roots=M(GN,*[k.split('::')[-1].replace('f2n_poly_t','fpn_poly_t').replace('f2_polymod_t','fp_polymod_t').replace('f2_poly_t','fp_poly_t') for k in UNITS['C13']['roots']],'operator*(const spffl::intmath::intmod_t &) const'))
_FF='factorization::'
UNITS['C20'] = dict(tus=['V/inst/tfacinfo_f2.cpp','spffl/bits/bit_matrix_t.cpp','spffl/bits/bit_vector_t.cpp']+_F2TU, specs=['intmath.vs','bitvec.vs','bitmat.vs','f2poly.vs','f2factor.vs'], libs=['lib_int.rs','lib_bits.rs','lib_word.rs','lib_poly.rs','lib_f2.rs','lib_polymod.rs','lib_f2mlite.rs','lib_bv.rs','lib_bm.rs','lib_f2fac.rs'], modular={'bits::bit_matrix_t::':'C17','bits::bit_vector_t::':'C16',**MOD}, bounded=['irreducibility of the factors and exactness of the irreducibility tests (linear algebra over the row-reduced matrix)','Fp and F(2^n)'], roots=M(_FF,'f2_poly_factor(const spffl::polynomials::f2_poly_t &)','f2_poly_is_irreducible(const spffl::polynomials::f2_poly_t &)'))
UNITS['C25'] = dict(tus=['V/inst/list_intmod.cpp',I+'intmod_t.cpp',I+'int_totient.cpp',I+'int_gcd.cpp'], specs=['intmath.vs','intmod.vs','tvector.vs','list.vs'], libs=['lib_int.rs','lib_euler.rs','lib_intmod.rs','lib_tvec.rs','lib_list.rs'], modular={'inst::tvector<':'C18','intmath::intmod_t::':'C05','intmath::int_totient':'C02','intmath::':'C01'}, bounded=['enumerations of polynomials and polynomial residues, affine and projective lists'], roots=['list::intmod_list(int, sp_list_type_t)','list::intmod_glist(spffl::intmath::intmod_t, sp_list_type_t)'])
TRUSTED = ['clang 18 AST of /repo as parsed', 'engine/clangast.py + engine/translate.py (C++ AST to Verus, mechanical; drops listed in extraction_drops)',
  'engine/mkprelude.py operations marked external_body', 'Verus 0.2026.09.13 and Z3', 'rustc/vstd library lemmas']
ASSUMPTIONS = ['LP64 data model, two\'s complement; narrowing conversions as clang 18 does them',
  'objects referred to by distinct reference/pointer parameters do not overlap except where an alias-specialised copy is verified',
  'operator new either succeeds or throws (treated as succeeding)',
  'non-const globals read by the code keep their initial value (no loaded function writes them: checked on the AST)']
HARNESS = {
 'C01': dict(sources=['spffl/intmath/int_gcd.cpp'], quick=15, thorough=240),
 'C02': dict(sources=['spffl/intmath/int_gcd.cpp','spffl/intmath/int_power.cpp','spffl/intmath/int_sqrt.cpp','spffl/intmath/int_totient.cpp','spffl/base/*.cpp'], quick=15, thorough=240),
 'C03': dict(sources=['spffl/intmath/is_prime.cpp','spffl/intmath/primes_16.cpp','spffl/base/*.cpp'], quick=15, thorough=240),
 'C04': dict(sources=['spffl/intmath/log2.cpp','spffl/intmath/log10.cpp','spffl/bits/count_bits.cpp'], quick=12, thorough=200),
}
HARNESS['C05'] = dict(sources=['spffl/intmath/intmod_t.cpp','spffl/intmath/int_gcd.cpp','spffl/intmath/int_totient.cpp','spffl/base/*.cpp'], quick=15, thorough=240)
HARNESS['C06'] = dict(sources=['spffl/intmath/intrat_t.cpp','spffl/intmath/int_gcd.cpp','spffl/base/*.cpp'], quick=15, thorough=240)
HARNESS['C16'] = dict(sources=['spffl/bits/bit_vector_t.cpp','spffl/bits/bit_t.cpp','spffl/bits/count_bits.cpp','spffl/intmath/log2.cpp','spffl/base/*.cpp'], quick=12, thorough=240)
_F2S=['spffl/polynomials/f2_poly_t.cpp','spffl/bits/bit_t.cpp','spffl/bits/count_bits.cpp','spffl/intmath/log2.cpp','spffl/base/*.cpp']
HARNESS['C07'] = dict(sources=_F2S, quick=12, thorough=240)
HARNESS['C08'] = dict(sources=_F2S, quick=12, thorough=240)
HARNESS['C09'] = dict(sources=['spffl/polynomials/f2_polymod_t.cpp']+_F2S, quick=12, thorough=240)
_FPS=['spffl/polynomials/fp_poly_t.cpp']+[I+x for x in ('intmod_t.cpp','int_totient.cpp','int_gcd.cpp')]+['spffl/base/*.cpp']
HARNESS['C10'] = dict(sources=_FPS, quick=12, thorough=240)
HARNESS['C11'] = dict(sources=_FPS, quick=15, thorough=240)
HARNESS['C12'] = dict(sources=['spffl/polynomials/fp_polymod_t.cpp']+_FPS, quick=15, thorough=240)
HARNESS['C30'] = dict(sources=_F2S+[I+'intmod_t.cpp',I+'int_totient.cpp',I+'int_gcd.cpp'], quick=8, thorough=120)
HARNESS['C21'] = dict(sources=['spffl/factorization/int_factor.cpp',I+'primes_16.cpp']+sorted(set(_F2S+_FPS)), quick=12, thorough=240)
HARNESS['C18'] = dict(sources=_F2S+[I+x for x in ('intmod_t.cpp','intrat_t.cpp','int_totient.cpp','int_gcd.cpp')], quick=12, thorough=240)
HARNESS['C22'] = dict(sources=['spffl/bitrand/psdes.cpp','spffl/random/int_random.cpp','spffl/base/*.cpp'], quick=8, thorough=120)
HARNESS['C23'] = dict(sources=['spffl/random/*.cpp']+['spffl/polynomials/%s.cpp'%x for x in ('f2_polymod_t','fp_polymod_t','f2n_poly_t','f2n_polymod_t')]+_F2S+_FPS, quick=10, thorough=120)
HARNESS['C15'] = dict(sources=['spffl/rationals/%s.cpp'%x for x in ('f2_polyrat_t','fp_polyrat_t','f2n_polyrat_t')]+['spffl/polynomials/%s.cpp'%x for x in ('f2_polymod_t','f2n_poly_t','f2n_polymod_t')]+sorted(set(_F2S+_FPS)), quick=9, thorough=200)
HARNESS['C17'] = dict(sources=['spffl/bits/bit_matrix_t.cpp','spffl/bits/bit_vector_t.cpp','spffl/bits/bit_t.cpp','spffl/bits/count_bits.cpp',I+'log2.cpp','spffl/base/*.cpp'], quick=8, thorough=200)
_ALLP=['spffl/polynomials/%s.cpp'%x for x in ('f2_polymod_t','fp_polymod_t','f2n_poly_t','f2n_polymod_t','fpn_poly_t','fpn_polymod_t')]+sorted(set(_F2S+_FPS))
HARNESS['C19'] = dict(sources=_ALLP+[I+'intrat_t.cpp'], quick=10, thorough=200)
HARNESS['C13'] = dict(sources=_ALLP, quick=10, thorough=200)
HARNESS['C14'] = dict(sources=_ALLP, quick=10, thorough=200)
HARNESS['C20'] = dict(sources=_ALLP+['spffl/factorization/%s.cpp'%x for x in ('f2_poly_factor','f2_poly_totient','fp_poly_factor','fp_poly_totient','f2n_poly_factor','f2n_poly_totient')]+['spffl/random/*.cpp','spffl/bits/*.cpp',I+'int_power.cpp',I+'log2.cpp'], quick=10, thorough=240)
HARNESS['C25'] = dict(sources=HARNESS['C20']['sources']+['spffl/list/*.cpp'], quick=10, thorough=200)
def level(pid): return UNITS[pid].get('level', 'proof')
NOTE = {
 'C25': 'Proved for every modulus: intmod_list (all residues, units, non-units) and intmod_glist (multiples of, and residues relatively prime to, a given residue) return exactly the selected residues, each once and in increasing order. The enumerations of polynomials, of residues of polynomials over F2, Fp and F(2^n), and of affine and projective spaces are covered by the bounded run only. Contracts of tvector, intmod_t and the integer functions are assumed here and discharged by C18, C05, C02 and C01.',
 'C20': 'Proved for every non-zero F2 polynomial (up to 2^26 bits): whenever f2_poly_factor returns, the product of the listed factors with multiplicity (and the unit) is the input - square-free splitting, square roots and the Berlekamp split f = gcd(f,h) gcd(f,h+1) each carry this product as a postcondition and the recursion terminates; the kernel vector is validated by the code itself, so nothing is assumed about the linear algebra. The contracts of the factor list (tfacinfo<f2_poly_t>: a product) are assumed and covered by the bounded runs of C21. Irreducibility of the factors, the irreducibility tests, totients, roots, and Fp and F(2^n) are covered by the bounded run only, against an independent Rabin test.',
 'C13': 'Proved for every field and every degree (up to 2^28): construction, copies, assignment, sums, negation, products by scalars and by polynomials (each coefficient is the convolution sum modulo m), quotient by a scalar, derivative, evaluation (Horner), coefficient access, normalisation, comparison and promotion. Division with remainder, gcd, powers, square roots and f2n_polymod_t are covered by the bounded run only. Contracts of f2_polymod_t and f2_poly_t are assumed here and discharged by C09, C07 and C08.',
 'C14': 'Proved for every prime characteristic, every field and every degree (up to 2^28): construction, copies, assignment, sums, negation, products by scalars and by polynomials (each coefficient is the convolution sum modulo m), quotient by a scalar, derivative, evaluation (Horner), coefficient access, normalisation, comparison and promotion. Division with remainder, gcd, powers, p-th roots and fpn_polymod_t are covered by the bounded run only. Contracts of fp_polymod_t, fp_poly_t and intmod_t are assumed here and discharged by C12, C10, C11 and C05.',
 'C19': 'Proved for tmatrix<intmod_t> of every shape: construction, copies, comparison, sums, scalar multiples, products (matrix and vector), transposition, flips, identity, outer product, columns, pasting, splitting and row exchange, each as a coefficientwise or dot-product postcondition. Row reduction, rank, kernel, inverse, determinant, solving and powers, and the other element types, are covered by the bounded run only. Contracts of tvector and intmod_t are assumed here and discharged by C18 and C05.',
 'C17': 'Construction, copies, comparison, sums, products, transposition, identity, outer product, pasting, splitting, row exchange and the inverse check are proved for every shape; row reduction works through raw pointers into the rows and is covered, with rank, kernel, inverse, determinant and powers, by the bounded run only. Contracts of bit_vector_t are assumed here and discharged by C16.',
 'C18': 'tvector instantiated with intmod_t is proved (all shapes, all elements); int, rationals and F2 polynomials as elements, and sort, are covered by the bounded run only.',
 'C30': 'tstack instantiated with intmod_t is proved; other element types are covered by the bounded run only.',
 'C21': 'tfacinfo<int> and int_factor are proved; the sorted lists of all divisors and of maximal proper divisors (qsort) and lists of polynomials are covered by the bounded run only. That the prime table is exactly the primes below 2^16 is assumed here and discharged by C03.',
 'C23': 'Verified by Verus for the integer, F2 and Fp generators, the generator words being arbitrary; contracts of the ring classes are assumed here and discharged by C02, C05, C07, C09, C10, C12. The F(2^n) generators are covered by the bounded run only.',
 'C15': 'f2_polyrat_t is proved for all rational functions whose parts are within the size bounds of the contracts; fp_polyrat_t and f2n_polyrat_t are covered by the bounded run only. Contracts of f2_poly_t are assumed here and discharged by C07 and C08.',
 'C22': 'The mixer, its bijectivity and the reentrant draws are proved; the draws on the hidden static state are covered by the bounded run.',
}
NA = {}
