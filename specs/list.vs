# ---- C25: enumerations of the residues modulo p
@fn list::intmod_list(int, sp_list_type_t)
@requires p >= 2
@maythrow type_ != 0 && type_ != 1 && type_ != 2
@ensures tvst(ret), type_ == 0 ==> listis(ret, fall(), p as int), type_ == 1 ==> listis(ret, fcop(p as int), p as int), type_ == 2 ==> listis(ret, fncop(p as int), p as int)
@entry lemma_totient_pos(p as int); lemma_cop_bound(p as int, p as int); lemma_selcop(p as int, p as int); lemma_selall(p as int);
@loop 0
@inv 0 <= i <= p, p >= 2, tvst(rv), rv.elements.st is Live, rv.num_elements == selcnt(fcop(p as int), p as int), rv.elements.v@.len() >= rv.num_elements, j == selcnt(fcop(p as int), i as int), 0 <= j <= i, listto(rv, fcop(p as int), p as int, j as int, i as int)
@dec p - i
@top
let ghost rv0 = rv;
let ghost i0 = i as int;
lemma_selstep(fcop(p as int), i0); lemma_smod(i0, p as int); lemma_selcnt(fcop(p as int), i0, p as int);
@aftercall int_gcd 0
lemma_cop_test($ret as int, i0, p as int);
@end lemma_listpush(rv0, rv, fcop(p as int), p as int, i0);
@loop 1
@inv 0 <= i <= p, p >= 2, tvst(rv), rv.elements.st is Live, rv.num_elements == selcnt(fncop(p as int), p as int), rv.elements.v@.len() >= rv.num_elements, j == selcnt(fncop(p as int), i as int), 0 <= j <= i, listto(rv, fncop(p as int), p as int, j as int, i as int)
@dec p - i
@top
let ghost rv0 = rv;
let ghost i0 = i as int;
lemma_selstep(fncop(p as int), i0); lemma_smod(i0, p as int); lemma_selcnt(fncop(p as int), i0, p as int);
@aftercall int_gcd 1
lemma_cop_test($ret as int, i0, p as int);
@end lemma_listpush(rv0, rv, fncop(p as int), p as int, i0);
@loop 2
@before lemma_selall(0);
@inv 0 <= i <= p, p >= 2, tvst(rv), rv.elements.st is Live, rv.num_elements == p, rv.elements.v@.len() >= rv.num_elements, i == selcnt(fall(), i as int), listto(rv, fall(), p as int, i as int, i as int)
@dec p - i
@top
let ghost rv0 = rv;
let ghost i0 = i as int;
lemma_selstep(fall(), i0); lemma_smod(i0, p as int);
@end lemma_listpush(rv0, rv, fall(), p as int, i0);

@fn list::intmod_glist(spffl::intmath::intmod_t, sp_list_type_t)
@requires mset(g), g.modulus >= 2
@throws type_ != 3 && type_ != 4
@ensures tvst(ret), exists|d: int| 1 <= d && #[trigger] is_gcd(d, g.modulus as int, g.residue as int) && (type_ == 3 ==> listis(ret, fmult(d), g.modulus as int)) && (type_ == 4 ==> listis(ret, fcop(d), g.modulus as int))
@aftercall int_gcd 0
lemma_gdiv($ret as int, g.residue as int, g.modulus as int);
@loop 0
@inv 0 <= r <= m, m == g.modulus, m >= 2, 1 <= gr <= m, is_gcd(gr as int, g.modulus as int, g.residue as int), tvst(rv), rv.elements.st is Live, rv.num_elements == m, rv.elements.v@.len() >= m, nel == selcnt(fmult(gr as int), r as int), 0 <= nel <= r, r >= 1 ==> nel >= 1, listto(rv, fmult(gr as int), m as int, nel as int, r as int)
@dec m - r
@top
let ghost rv0 = rv;
let ghost i0 = r as int;
lemma_selstep(fmult(gr as int), i0); lemma_smod(i0, m as int); lemma_trem_pos(r as int, gr as int);
@end lemma_listpush(rv0, rv, fmult(gr as int), m as int, i0);
@loop 1
@inv 0 <= r <= m, m == g.modulus, m >= 2, 1 <= gr <= m, is_gcd(gr as int, g.modulus as int, g.residue as int), tvst(rv), rv.elements.st is Live, rv.num_elements == m, rv.elements.v@.len() >= m, nel == selcnt(fcop(gr as int), r as int), 0 <= nel <= r, r >= 2 ==> nel >= 1, listto(rv, fcop(gr as int), m as int, nel as int, r as int)
@dec m - r
@top
let ghost rv0 = rv;
let ghost i0 = r as int;
lemma_selstep(fcop(gr as int), i0); lemma_smod(i0, m as int); lemma_cop_one(gr as int);
@aftercall int_gcd 1
lemma_cop_test($ret as int, i0, gr as int);
@end lemma_listpush(rv0, rv, fcop(gr as int), m as int, i0);
