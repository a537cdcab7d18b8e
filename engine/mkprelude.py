"""Generates the Verus prelude: C++ scalar semantics as verified functions."""
B={'i8':8,'i16':16,'i32':32,'i64':64,'u8':8,'u16':16,'u32':32,'u64':64}
def gen():
    o=[]
    w=o.append
    w("""
pub struct Exc;
// std::string parameters: text used in messages only
pub struct OpaqueStr {}
#[verifier::external_body]
pub fn same_object<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
// reachable only if control falls off the end of a value-returning function: the obligation before it is `false`
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { loop { } }

pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub proof fn lemma_p2_pow2(n: nat) ensures p2(n) == vstd::arithmetic::power2::pow2(n), p2(n) >= 1 decreases n
{
    if n > 0 { lemma_p2_pow2((n - 1) as nat); vstd::arithmetic::power2::lemma_pow2_unfold(n); } else { vstd::arithmetic::power2::lemma2_to64(); }
}
""")
    for t in list(B)+['bool']:
        w("pub fn any_%s() -> (r: %s) { %s }  // no postcondition: an arbitrary value"%(t,t,'false' if t=='bool' else '0'))
    for a in B:
        for b in B:
            if a==b: continue
            sa,sb=a[0]=='i',b[0]=='i'
            if not sa and B[b]>B[a]: continue
            if sa and sb and B[b]>B[a]: continue
            n=B[b]; M=1<<n
            lo,hi=(-(M//2),M//2-1) if sb else (0,M-1)
            if sb:
                ens='r as int == (if (x as int) %% %d >= %d { (x as int) %% %d - %d } else { (x as int) %% %d })'%(M,M//2,M,M,M)
            else:
                ens='r as int == (x as int) %% %d'%M
            body = ''
            if sa:
                body += """    let m: u128 = if x >= 0 { (x as u128) %% %d } else { %d - ((-((x as i128) + 1)) as u128) %% %d };
    proof { let xi = x as int; if xi < 0 { let k = -(xi + 1); assert(xi == -k - 1); assert((-k - 1) %% %d == %d - 1 - k %% %d); } }
""" % (M, M - 1, M, M, M, M)
            else:
                body += "    let m: u128 = (x as u128) %% %d;\n" % M
            if sb:
                body += "    if m >= %d { (m as i128 - %d) as %s } else { m as %s }" % (M // 2, M, b, b)
            else:
                body += "    m as %s" % b
            body = body.replace('%%', '%')
            w("""pub fn cast_%s_%s(x: %s) -> (r: %s)
    ensures (%d <= x && x <= %d) ==> r == x, %s,
{
%s
}""" % (a, b, a, b, lo, hi, ens, body))
    for t in ('i32','i64'):
        u='u'+t[1:]
        lo='%s::MIN'%t
        w("""pub open spec fn tdiv_%(t)s(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem_%(t)s(a: int, b: int) -> int { a - b * tdiv_%(t)s(a, b) }
pub fn %(t)s_div(a: %(t)s, b: %(t)s) -> (r: %(t)s)
    requires b != 0, !(a == %(lo)s && b == -1),
    ensures r as int == tdiv_%(t)s(a as int, b as int), (a >= 0 && b > 0) ==> r as int == (a as int) / (b as int),
{
    proof { lemma_tdiv_bound(a as int, b as int); }
    let q: i128 = if a >= 0 { if b > 0 { (a as u128 / b as u128) as i128 } else { -((a as u128 / (-(b as i128)) as u128) as i128) } }
        else { if b > 0 { -(((-(a as i128)) as u128 / b as u128) as i128) } else { ((-(a as i128)) as u128 / (-(b as i128)) as u128) as i128 } };
    q as %(t)s
}
pub fn %(t)s_rem(a: %(t)s, b: %(t)s) -> (r: %(t)s)
    requires b != 0, !(a == %(lo)s && b == -1),
    ensures r as int == trem_%(t)s(a as int, b as int), (a >= 0 && b > 0) ==> r as int == (a as int) %% (b as int),
        (a >= 0 && b > 0) ==> 0 <= r < b,
        a >= 0 ==> r >= 0, a <= 0 ==> r <= 0,
        r as int == 0 <==> (a as int) %% (b as int) == 0,
        b > 0 ==> -b < r < b, b < 0 ==> b < r && r < -b,
        a as int == (b as int) * tdiv_%(t)s(a as int, b as int) + r as int,
{
    proof { lemma_trem(a as int, b as int); lemma_tdiv_bound(a as int, b as int); }
    let q = %(t)s_div(a, b);
    proof {
        let qq = q as int; let aa = a as int; let bb = b as int;
        assert(-0x8000_0000_0000_0000_0000 < qq * bb < 0x8000_0000_0000_0000_0000) by {
            assert(aa - bb * qq == trem_%(t)s(aa, bb));
            assert(bb * qq == qq * bb) by(nonlinear_arith);
        }
    }
    let p: i128 = (q as i128) * (b as i128);
    proof { assert((q as int) * (b as int) == (b as int) * (q as int)) by(nonlinear_arith); }
    (a as i128 - p) as %(t)s
}
"""%dict(t=t,lo=lo))
    w("""
pub open spec fn tdiv(a: int, b: int) -> int { tdiv_i32(a, b) }
pub open spec fn trem(a: int, b: int) -> int { trem_i32(a, b) }
pub proof fn lemma_tdiv_bound(a: int, b: int)
    requires b != 0
    ensures -abs_(a) <= tdiv_i32(a, b) <= abs_(a), tdiv_i32(a, b) == tdiv_i64(a, b), (b != -1 && b != 1 && a != 0) ==> -abs_(a) < tdiv_i32(a, b) < abs_(a),
        b == -1 ==> tdiv_i32(a, b) == -a,
{
    let x = abs_(a); let y = abs_(b);
    assert(0 <= x / y <= x) by(nonlinear_arith) requires x >= 0, y > 0;
    if y > 1 && x > 0 { assert(x / y < x) by(nonlinear_arith) requires x > 0, y > 1; }
    if y == 1 { assert(x / y == x) by(nonlinear_arith) requires y == 1; }
}
pub open spec fn abs_(a: int) -> int { if a >= 0 { a } else { -a } }
pub proof fn lemma_trem(a: int, b: int)
    requires b != 0
    ensures ({ let r = trem_i32(a, b); &&& r == trem_i64(a, b) &&& (a >= 0 ==> r >= 0) &&& (a <= 0 ==> r <= 0)
        &&& (b > 0 ==> -b < r < b) &&& (b < 0 ==> b < r && r < -b) &&& (r == 0 <==> a % b == 0)
        &&& ((a >= 0 && b > 0) ==> r == a % b) &&& a == b * tdiv_i32(a, b) + r &&& a == b * tdiv_i64(a, b) + r })
{
    let x = abs_(a); let y = abs_(b); let q = tdiv_i32(a, b); let r = trem_i32(a, b);
    assert(tdiv_i32(a, b) == tdiv_i64(a, b));
    assert(x == y * (x / y) + x % y && 0 <= x % y < y) by(nonlinear_arith) requires y > 0;
    let qq = x / y;
    if a >= 0 {
        if b > 0 { assert(r == x % y); } else { assert(b * q == y * qq) by(nonlinear_arith) requires b == -y, q == -qq; assert(r == x % y); }
    } else {
        if b > 0 { assert(b * q == -(y * qq)) by(nonlinear_arith) requires b == y, q == -qq; assert(r == -(x % y)); }
        else { assert(b * q == -(y * qq)) by(nonlinear_arith) requires b == -y, q == qq; assert(r == -(x % y)); }
    }
    assert(a - r == b * q);
    if r == 0 { assert(a == b * q); if b > 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, b); assert(b * q == q * b) by(nonlinear_arith); } else { let k = a / b; let m = a % b;
        assert(a == b * k + m && 0 <= m < -b) by(nonlinear_arith) requires b < 0, k == a / b, m == a % b;
        assert(m == b * (q - k)) by(nonlinear_arith) requires a == b * k + m, a == b * q;
        if q - k >= 1 { assert(b * (q - k) <= b) by(nonlinear_arith) requires q - k >= 1, b < 0; }
        if q - k <= -1 { assert(b * (q - k) >= -b) by(nonlinear_arith) requires q - k <= -1, b < 0; }
        assert(m == 0) by(nonlinear_arith) requires m == b * (q - k), q - k == 0 || m < 0 || m >= -b, 0 <= m < -b; } }
    if a % b == 0 {
        let k = a / b;
        assert(a == b * k) by(nonlinear_arith) requires a % b == 0, b != 0, k == a / b;
        assert(r == b * (k - q)) by(nonlinear_arith) requires a == b * k, a - r == b * q;
        if k - q >= 1 { assert(abs_(b * (k - q)) >= y) by(nonlinear_arith) requires k - q >= 1, y == abs_(b); }
        if k - q <= -1 { assert(abs_(b * (k - q)) >= y) by(nonlinear_arith) requires k - q <= -1, y == abs_(b); }
        assert(r == 0) by(nonlinear_arith) requires r == b * (k - q), k - q == 0 || abs_(r) >= y, abs_(r) < y;
    }
}
""")
    # shifts
    for t in ('i8','i16','i32','i64','u8','u16','u64'):
        if t in('u8','u16','i8','i16'): 
            pass
        if t[0]=='i':
            w("pub fn shamt_%s(x: %s) -> (r: u32) requires 0 <= x < 64 ensures r == x { x as u32 }"%(t,t))
        else:
            w("pub fn shamt_%s(x: %s) -> (r: u32) requires x < 64 ensures r == x { x as u32 }"%(t,t))
    for t in ('u32','u64'):
        for nm,op in (('shl','<<'),('shr','>>')):
            n=B[t]
            if nm=='shr':
                ens='r as int == a as int / (p2(s as nat) as int)'
                pf='lemma_p2_pow2(s as nat); vstd::bits::lemma_%s_shr_is_div(a, s as %s);'%(t,t)
            else:
                ens='a as int * p2(s as nat) < %d ==> r as int == a as int * p2(s as nat)'%(1<<n)
                pf='lemma_p2_pow2(s as nat); if a as int * p2(s as nat) < %d { vstd::bits::lemma_%s_shl_is_mul(a, s as %s); }'%(1<<n,t,t)
            w("pub fn %s_%s(a: %s, s: u32) -> (r: %s) requires s < %d ensures r == a %s (s as %s), %s { proof { %s } a %s (s as %s) }"%(t,nm,t,t,n,op,t,ens,pf,op,t))
    for t in ('i32','i64'):
        n=B[t]; u='u%d'%n
        w("pub fn %s_shr(a: %s, s: u32) -> (r: %s) requires s < %d ensures r == a >> s { a >> s }"%(t,t,t,n))
        w("pub fn %s_shl(a: %s, s: u32) -> (r: %s) requires s < %d, ensures r == a << s, (a >= 0 && a as int * p2(s as nat) < %d) ==> r as int == a as int * p2(s as nat) { proof { lemma_p2_pow2(s as nat); if a >= 0 && a as int * p2(s as nat) < %d { let b = a as %s; vstd::bits::lemma_%s_shl_is_mul(b, s as %s); assert(((a << s) as %s) == (b << (s as %s))) by(bit_vector) requires b == a as %s, a >= 0, s < %d; let x = a << s; assert(x >= 0) by(bit_vector) requires (x as %s) < %d; } } a << s }"%(t,t,t,n,1<<(n-1),1<<(n-1),u,u,u,u,u,u,n,u,1<<(n-1)))
        w("""pub fn idx_%s(x: %s) -> (r: usize) requires 0 <= x ensures r == x { x as usize }"""%(t,t))
    w("pub fn idx_i8(x: i8) -> (r: usize) requires 0 <= x ensures r == x { x as usize }")
    w("pub fn idx_i16(x: i16) -> (r: usize) requires 0 <= x ensures r == x { x as usize }")
    w("""
// ---- std::vector<integer> -------------------------------------------------
pub fn vec_new<T: Copy>(n: u64, x: T) -> (r: Vec<T>)
    ensures r@ == Seq::new(n as nat, |i: int| x),
{
    let mut v: Vec<T> = Vec::new();
    let mut i: u64 = 0;
    while i < n invariant i <= n, v@ == Seq::new(i as nat, |j: int| x) decreases n - i {
        v.push(x);
        i = i + 1;
        proof { assert(v@ =~= Seq::new(i as nat, |j: int| x)); }
    }
    v
}
pub fn vec_copy<T: Copy>(a: &Vec<T>) -> (r: Vec<T>) ensures r@ == a@ {
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < a.len() invariant i <= a.len(), v@ == a@.subrange(0, i as int) decreases a.len() - i {
        v.push(a[i]);
        i = i + 1;
        proof { assert(v@ =~= a@.subrange(0, i as int)); }
    }
    proof { assert(a@.subrange(0, a@.len() as int) =~= a@); }
    v
}
pub fn vec_pop<T>(a: &mut Vec<T>) requires old(a)@.len() > 0 ensures final(a)@ == old(a)@.drop_last() { a.pop(); }
pub fn vec_resize<T: Copy>(a: &mut Vec<T>, n: u64, x: T)
    ensures final(a)@ == Seq::new(n as nat, |i: int| if i < old(a)@.len() { old(a)@[i] } else { x }),
{
    let ghost o = a@;
    let mut v: Vec<T> = Vec::new();
    let mut i: u64 = 0;
    while i < n invariant i <= n, a@ == o, v@ == Seq::new(i as nat, |j: int| if j < o.len() { o[j] } else { x }) decreases n - i {
        if (i as usize) < a.len() { v.push(a[i as usize]); } else { v.push(x); }
        i = i + 1;
        proof { assert(v@ =~= Seq::new(i as nat, |j: int| if j < o.len() { o[j] } else { x })); }
    }
    *a = v;
}
// ---- owning raw arrays (new T[n] / delete[]) -------------------------------
#[derive(PartialEq, Eq)]
pub enum BufState { Null, Live, Dead }
pub struct Buf<T> { pub v: Vec<T>, pub st: BufState }
impl<T> Buf<T> {
    pub open spec fn live(&self) -> bool { self.st == BufState::Live }
    pub open spec fn null(&self) -> bool { self.st == BufState::Null && self.v@.len() == 0 }
}
pub fn buf_null<T>() -> (r: Buf<T>) ensures r.null() { Buf { v: Vec::new(), st: BufState::Null } }
// an uninitialised pointer: neither readable nor deletable
pub fn buf_wild<T>() -> (r: Buf<T>) ensures r.st == BufState::Dead, r.v@.len() == 0 { Buf { v: Vec::new(), st: BufState::Dead } }
pub fn buf_is_null<T>(b: &Buf<T>) -> (r: bool) requires !(b.st is Dead) ensures r == (b.st is Null) { match b.st { BufState::Null => true, _ => false } }
pub fn buf_delete<T>(b: &mut Buf<T>) requires !(old(b).st is Dead) ensures final(b).st is Dead, final(b).v@.len() == 0 { b.v = Vec::new(); b.st = BufState::Dead; }
pub fn buf_take<T>(b: &mut Buf<T>) -> (r: Buf<T>) ensures r.v@ == old(b).v@, r.st == old(b).st, final(b).st is Dead, final(b).v@.len() == 0 {
    let mut x = buf_wild();
    vstd::std_specs::core::mem_swap_(b, &mut x);
    x
}
""".replace("""    let mut x = buf_wild();
    vstd::std_specs::core::mem_swap_(b, &mut x);
    x
""","""    let mut x: Buf<T> = buf_wild();
    core::mem::swap(b, &mut x);
    x
"""))
    for t in B:
        w("""pub fn wild_vec_%(t)s(n: usize) -> (r: Vec<%(t)s>) ensures r@.len() == n {
    let mut v: Vec<%(t)s> = Vec::new(); let mut i: usize = 0;
    while i < n invariant i <= n, v@.len() == i decreases n - i { v.push(any_%(t)s()); i = i + 1; }
    v
}
pub fn buf_new_%(t)s(n: u64) -> (r: Buf<%(t)s>) ensures r.st is Live, r.v@.len() == n {
    let mut v: Vec<%(t)s> = Vec::new(); let mut i: u64 = 0;
    while i < n invariant i <= n, v@.len() == i decreases n - i { v.push(any_%(t)s()); i = i + 1; }
    Buf { v, st: BufState::Live }
}"""%dict(t=t))
        nb = B[t] // 8
        w("""pub fn buf_memset0_%(t)s(b: &mut Buf<%(t)s>, n: u64)
    requires n as int %% %(nb)d == 0, n == 0 || (old(b).st is Live && n as int <= %(nb)d * old(b).v@.len()),
    ensures final(b).st == old(b).st, final(b).v@.len() == old(b).v@.len(),
        forall|i: int| 0 <= i < n as int / %(nb)d ==> #[trigger] final(b).v@[i] == 0,
        forall|i: int| n as int / %(nb)d <= i < old(b).v@.len() ==> #[trigger] final(b).v@[i] == old(b).v@[i],
{
    let ghost o = b.v@;
    let m: u64 = n / %(nb)d;
    let mut i: u64 = 0;
    while i < m
        invariant i <= m, m == n / %(nb)d, n == 0 || (n as int <= %(nb)d * o.len()), b.v@.len() == o.len(), b.st == old(b).st, o == old(b).v@,
            forall|j: int| 0 <= j < i ==> #[trigger] b.v@[j] == 0, forall|j: int| i <= j < o.len() ==> #[trigger] b.v@[j] == o[j],
        decreases m - i
    { b.v[i as usize] = 0; i = i + 1; }
}
pub fn buf_memcpy_%(t)s(b: &mut Buf<%(t)s>, a: &Buf<%(t)s>, n: u64)
    requires n as int %% %(nb)d == 0, n == 0 || (old(b).st is Live && a.st is Live && n as int <= %(nb)d * old(b).v@.len() && n as int <= %(nb)d * a.v@.len()),
    ensures final(b).st == old(b).st, final(b).v@.len() == old(b).v@.len(),
        forall|i: int| 0 <= i < n as int / %(nb)d ==> #[trigger] final(b).v@[i] == a.v@[i],
        forall|i: int| n as int / %(nb)d <= i < old(b).v@.len() ==> #[trigger] final(b).v@[i] == old(b).v@[i],
{
    let ghost o = b.v@;
    let m: u64 = n / %(nb)d;
    let mut i: u64 = 0;
    while i < m
        invariant i <= m, m == n / %(nb)d, n == 0 || (n as int <= %(nb)d * o.len() && n as int <= %(nb)d * a.v@.len()), b.v@.len() == o.len(), b.st == old(b).st, o == old(b).v@,
            forall|j: int| 0 <= j < i ==> #[trigger] b.v@[j] == a.v@[j], forall|j: int| i <= j < o.len() ==> #[trigger] b.v@[j] == o[j],
        decreases m - i
    { b.v[i as usize] = a.v[i as usize]; i = i + 1; }
}"""%dict(t=t, nb=nb))
    for t in ('u32', 'u64'):
        nb = B[t] // 8
        w("""// the bytes of a word in memory order (little endian)
pub open spec fn byte_of_%(t)s(x: %(t)s, i: int) -> u8 { ((x >> ((8 * i) as %(t)s)) & 0xff) as u8 }
pub fn bytes_of_%(t)s(x: %(t)s) -> (r: Buf<u8>) ensures r.st is Live, r.v@.len() == %(nb)d, forall|i: int| 0 <= i < %(nb)d ==> #[trigger] r.v@[i] == byte_of_%(t)s(x, i)
{
    let mut v: Vec<u8> = Vec::new();
    let mut i: u32 = 0;
    while i < %(nb)d invariant i <= %(nb)d, v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == byte_of_%(t)s(x, j) decreases %(nb)d - i
    {
        let y = (x >> ((8 * i) as %(t)s)) & 0xff;
        proof { assert(y <= 0xff) by(bit_vector) requires y == (x >> ((8 * i) as %(t)s)) & 0xff; }
        v.push(y as u8);
        i = i + 1;
    }
    Buf { v, st: BufState::Live }
}""" % dict(t=t, nb=nb))
    return '\n'.join(o)
if __name__=='__main__':
    print("use vstd::prelude::*;\nverus!{\nglobal size_of usize == 8;\n"+gen()+"\nfn main(){}\n}")
