"""Mechanical translation of the C++ functions of /repo (clang JSON AST) into
Verus executable functions carrying the contracts of /verif/specs.

Nothing here knows what a function is supposed to compute.  Each C++ construct
has one translation; a construct without one raises ExtractError (the function
is then reported as not extractable, never silently changed).

Semantics fixed by the translation
  int/long        Rust i32/i64 with overflow as a proof obligation (UB in C++)
  unsigned        wrapping arithmetic
  conversions     explicit, modular (C++20)
  a[i], v[i]      bounds are proof obligations
  throw           Err(Exc)
  new T[n]        Buf<T> of length n, arbitrary/default-constructed contents
  delete[]        obligation: live or null; afterwards dead
  uninitialised   arbitrary value
  static locals   arbitrary value satisfying the declared static invariant,
                  which is proved initially and at every exit
  dropped         iostream writes (diagnostics)
"""
import json, re
from clangast import ExtractError, FUNC_KINDS, norm_cls

INT = {
    'int': 'i32', 'signed int': 'i32', 'unsigned int': 'u32', 'long': 'i64', 'unsigned long': 'u64',
    'long long': 'i64', 'unsigned long long': 'u64', 'short': 'i16', 'unsigned short': 'u16',
    'char': 'i8', 'signed char': 'i8', 'unsigned char': 'u8', 'bool': 'bool',
    'uint64_t': 'u64', 'uint32_t': 'u32', 'uint16_t': 'u16', 'uint8_t': 'u8', 'int64_t': 'i64', 'int32_t': 'i32',
    'size_t': 'u64', 'std::size_t': 'u64', 'unsigned': 'u32',
}
BITS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
KEYWORDS = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try old spec proof exec ghost tracked assert assume requires ensures invariant decreases forall exists choose is has matches int nat via when'.split())

def signed(t):
    return t[0] == 'i'

def qual(n):
    t = n['type']
    return t.get('desugaredQualType') or t['qualType']

def strip_ref(q):
    q = q.strip()
    while q.endswith('&'):
        q = q[:-1].strip()
    if q.startswith('const '):
        q = q[6:].strip()
    if q.endswith(' const'):
        q = q[:-6].strip()
    if q.startswith('struct '):
        q = q[7:].strip()
    return q

def rid(s):
    s = re.sub(r'[^A-Za-z0-9_]', '_', s)
    s = re.sub(r'__+', '_', s)
    return s

class Types:
    def __init__(self, idx):
        self.idx = idx

    def find_class(self, q):
        q = norm_cls(strip_ref(q))
        if q in self.idx.classes:
            return q
        if 'spffl::' + q in self.idx.classes:
            return 'spffl::' + q
        # unique suffix match (clang prints types unqualified inside their namespace)
        c = [x for x in self.idx.classes if x.endswith('::' + q)]
        if len(c) == 1:
            return c[0]
        # template args printed with/without qualification
        m = re.match(r'([\w:]+)<(.*)>$', q)
        if m:
            base, arg = m.group(1), m.group(2)
            a = self.find_class(arg)
            if a is None:
                return None
            for x in self.idx.classes:
                mm = re.match(r'([\w:]+)<(.*)>$', x)
                if mm and (mm.group(1) == base or mm.group(1).endswith('::' + base)):
                    if self.find_class(mm.group(2)) == a and mm.group(2) != q:
                        return x
        return None

    def cls_rust(self, q):
        m = re.match(r'([\w:]+)<(.*)>$', q)
        if m:
            a = self.find_class(m.group(2))
            an = self.cls_rust(a) if a else rid(INT.get(m.group(2), m.group(2)))
            return m.group(1).split('::')[-1] + '_' + an
        return q.split('::')[-1]

    def rust(self, q):
        """C++ type spelling -> Rust type (value)."""
        q0 = q
        q = strip_ref(q)
        if q in INT:
            return INT[q]
        if q == 'void':
            return '()'
        if q in ('std::string', 'string', 'std::basic_string<char>'):
            return 'OpaqueStr'      # text handed to messages only; its contents are not modelled
        m = re.match(r'^(?:std::)?vector<(.*?)(?:, ?std::allocator<.*>)?\s*>$', q)
        if m:
            return 'Vec<%s>' % self.rust(m.group(1))
        if q.endswith('*') or q.endswith('*const'):
            inner = q.rstrip('const').rstrip('*').strip() if q.endswith('const') else q[:-1].strip()
            return 'Buf<%s>' % self.rust(inner)
        c = self.find_class(q)
        if c:
            return self.cls_rust(c)
        e = [t for n, t in self.idx.enums.items() if n == norm_cls(q) or n.endswith('::' + norm_cls(q))]
        if len(set(e)) == 1:
            return e[0]
        raise ExtractError('unsupported type %r' % q0)

    def is_int(self, q):
        return strip_ref(q) in INT

    def is_class(self, q):
        return strip_ref(q) not in INT and not strip_ref(q).endswith('*')


STREAMS = ('std::stringstream', 'std::basic_stringstream<char>', 'std::ostream', 'std::basic_ostream<char>', 'std::ostringstream')

def is_stream(q):
    q = strip_ref(q)
    return 'basic_stringstream' in q or 'basic_ostream' in q or q in ('std::stringstream', 'stringstream', 'std::ostream', 'std::ostringstream')


def skip(n):
    """Through wrappers that carry no semantics."""
    while True:
        k = n['kind']
        if k in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr',
                 'SubstNonTypeTemplateParmExpr'):
            n = n['inner'][0]
        elif k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and n.get('castKind') in ('NoOp', 'ConstructorConversion', 'FunctionToPointerDecay', 'UserDefinedConversion_'):
            n = n['inner'][0]
        else:
            return n


class Mod:
    """Set of functions to emit; contracts; results."""
    def __init__(self, idx, contracts):
        self.idx = idx
        self.ty = Types(idx)
        self.contracts = contracts      # key -> Contract
        self.emitted = {}               # mangled -> text
        self.order = []
        self.structs = {}               # rust name -> text
        self.throws_cache = {}
        self.dropped = []               # (function, what)
        self.tables = {}
        self.local_tables = {}
        self.opfns = {}
        self.readonly = set()
        self.queue = []
        self.todo_done = set()
        self.info = {}                  # mangled(+alias) -> dict(key, locals, loops, file, line)
        self.inlined = set()

    # ---- resolution -------------------------------------------------
    def func_of_id(self, tu, id):
        m = self.idx.owner.get((tu, id))
        if m is None:
            return None
        return self.idx.funcs[m]

    def contract(self, f):
        return self.contracts.get(f['key'])

    def mention_ctor(self, tu, cls, ctortype):
        """Find a constructor of cls with the given 'void (...)' type."""
        want = ctortype[ctortype.find('('):]
        cands = []
        for m, f in self.idx.funcs.items():
            if f['kind'] == 'CXXConstructorDecl' and f['cls'] == cls:
                cands.append(f)
        def normp(s):
            s = s.replace('spffl::', '').replace('intmath::', '').replace('polynomials::', '').replace('bits::', '').replace('containers::', '').replace('base::', '').replace('rationals::', '')
            s = s.replace('(void)', '()').replace(' noexcept', '')
            return re.sub(r'\s+', '', s)
        for f in cands:
            if normp(f['node']['type']['qualType'][f['node']['type']['qualType'].find('('):]) == normp(want):
                return f
        raise ExtractError('constructor %s%s not found' % (cls, want))

    def find_method(self, cls, name, nparams=None, pred=None):
        r = [f for f in self.idx.funcs.values() if f['cls'] == cls and f['node'].get('name') == name and (nparams is None or len(f['params']) == nparams) and (pred is None or pred(f))]
        return r[0] if r else None

    def copy_ctor(self, cls):
        for f in self.idx.funcs.values():
            if f['kind'] == 'CXXConstructorDecl' and f['cls'] == cls and len(f['params']) == 1 and f['body'] is not None and not f['node'].get('isImplicit'):
                q = qual(f['params'][0])
                if q.endswith('&') and not q.endswith('&&') and self.ty.find_class(q) == cls:
                    return f
        return None

    def default_ctor(self, cls):
        for f in self.idx.funcs.values():
            if f['kind'] == 'CXXConstructorDecl' and f['cls'] == cls and len(f['params']) == 0:
                return f
        return None

    def assumed(self, f):
        """Check that discharges this callee's contract when the unit assumes it (cfg 'modular'), else None."""
        if self.contract(f) is None or self.contract(f).flags.get('inline'):
            return None
        for pre, pid in getattr(self, 'modular', ()):
            if f['key'] not in getattr(self, 'root_keys', ()) and f['key'].startswith(pre):
                return pid
        return None

    # ---- may-throw ---------------------------------------------------
    def may_throw(self, f, stack=()):
        m = f['m']
        if m in self.throws_cache:
            return self.throws_cache[m]
        if m in stack:
            return False
        if f['body'] is None or (self.contract(f) is not None and self.contract(f).flags.get('extern')):
            return False
        res = self._mt(f, f['body'], stack + (m,))
        if not res and f['kind'] == 'CXXConstructorDecl':
            for c in f['node'].get('inner', []):
                if c['kind'] == 'CXXCtorInitializer' and self._mt(f, c, stack + (m,)):
                    res = True
        self.throws_cache[m] = res
        return res

    def _mt(self, f, n, stack):
        if not isinstance(n, dict) or 'kind' not in n:
            return False
        k = n['kind']
        if k == 'CXXThrowExpr':
            return True
        g = None
        try:
            if k == 'DeclRefExpr' and n['referencedDecl']['kind'] in FUNC_KINDS:
                g = self.func_of_id(f['tu'], n['referencedDecl']['id'])
            elif k == 'MemberExpr' and n.get('referencedMemberDecl'):
                g = self.func_of_id(f['tu'], n['referencedMemberDecl'])
            elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                c = self.ty.find_class(qual(n))
                if c:
                    g = self.mention_ctor(f['tu'], c, n['ctorType']['qualType'])
            elif k == 'CXXNewExpr':
                pass
        except ExtractError:
            g = None
        if g is not None and self.may_throw(g, stack):
            return True
        return any(self._mt(f, c, stack) for c in n.get('inner', []))

    # ---- structs -----------------------------------------------------
    def opfn(self, t, op, c):
        """Operation with a constant operand, together with its arithmetic reading (proved in the crate)."""
        nm = '%s_%s_%d' % (t, op, c)
        if nm not in self.opfns:
            ct = 'u32' if signed(t) else t
            if op == 'mask':
                e, f, g = 'a & %d%s' % (c, t), 'a %% %d' % (c + 1), 'r as int == a as int %% %d' % (c + 1)
            elif op == 'shr':
                e, f, g = 'a >> %d%s' % (c, ct), 'a / %d' % (1 << c), 'r as int == a as int / %d' % (1 << c)
            else:
                mx = (1 << BITS[t]) - 1
                lim = mx >> c
                e = 'a << %d%s' % (c, ct)
                f, g = None, None
            if op == 'shl':
                req = 'a <= %d' % lim
                s = 'pub fn %s(a: %s) -> (r: %s) ensures r == %s, %s ==> r as int == a as int * %d\n' % (nm, t, t, e, req, 1 << c)
                s += '{ proof { if %s { assert(%s == a * %d) by(bit_vector) requires %s; } } %s }\n' % (req, e, 1 << c, req, e)
            elif op == 'shr' and c >= BITS[t] - 1:
                s = 'pub fn %s(a: %s) -> (r: %s) ensures r == %s { %s }\n' % (nm, t, t, e, e)
            elif signed(t):
                s = 'pub fn %s(a: %s) -> (r: %s) ensures r == %s, a >= 0 ==> %s\n' % (nm, t, t, e, g)
                s += '{ proof { if a >= 0 { assert(%s == %s) by(bit_vector) requires a >= 0; } } %s }\n' % (e, f, e)
            else:
                s = 'pub fn %s(a: %s) -> (r: %s) ensures r == %s, %s\n' % (nm, t, t, e, g)
                s += '{ proof { assert(%s == %s) by(bit_vector); } %s }\n' % (e, f, e)
            self.opfns[nm] = s
        return nm

    def check_readonly(self, name):
        """A non-const global is read as its initializer: no loaded function may write it or let its address escape."""
        if name in self.readonly:
            return
        def walk(n, path):
            if not isinstance(n, dict):
                return
            if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == name and n['referencedDecl'].get('kind') == 'VarDecl':
                p = [x for x in path if x.get('kind') != 'ParenExpr']
                ok = False
                if p and p[-1].get('castKind') == 'LValueToRValue':
                    ok = True
                elif p and p[-1].get('kind') == 'UnaryExprOrTypeTraitExpr':
                    ok = True
                elif len(p) >= 3 and p[-1].get('castKind') == 'ArrayToPointerDecay' and p[-2].get('kind') == 'ArraySubscriptExpr' and p[-3].get('castKind') == 'LValueToRValue':
                    ok = True
                if not ok:
                    raise ExtractError('global %s is not used read-only' % name)
            for c in n.get('inner', []):
                walk(c, path + [n])
        for f in list(self.idx.funcs.values()):
            for g in (f if isinstance(f, list) else [f]):
                if g.get('body'):
                    walk(g['body'], [])
        self.readonly.add(name)

    def need_struct(self, cls):
        rn = self.ty.cls_rust(cls)
        if rn in self.structs:
            return rn
        self.structs[rn] = None
        c = self.idx.classes[cls]
        fields = []
        cpy = True
        for name, q, node in c['fields']:
            t = self.ty.rust(q)
            if t not in BITS and t != 'bool':
                cpy = False
            fc = self.ty.find_class(re.sub(r'\*', '', q)) if not re.match(r'^(std::)?vector', q) else None
            if fc:
                self.need_struct(fc)
            fields.append('    pub %s: %s,' % (fname(name), t))
        self.structs[rn] = '%spub struct %s {\n%s\n}\n' % ('#[derive(Copy, Clone)]\n' if cpy else '', rn, '\n'.join(fields))
        self.structs_copy = getattr(self, 'structs_copy', {})
        self.structs_copy[rn] = cpy
        return rn

    # ---- driving -----------------------------------------------------
    def fn_name(self, f, alias=()):
        s = f['m']
        if s.startswith('NOMANGLE'):
            s = rid(f['key'])
        s = re.sub(r'__tu\d+$', '', s)
        # ctor C1/C2 are the same code
        s = re.sub(r'[^A-Za-z0-9_]', '_', s)
        nm = f['node'].get('name', '')
        return 'f_' + s + ''.join('__al%d' % a for a in alias)

    def request(self, f, alias=()):
        k = (f['m'], tuple(alias))
        if k not in self.todo_done:
            self.todo_done.add(k)
            self.queue.append(k)
        return self.fn_name(f, alias)

    def run(self, roots):
        for key in roots:
            al = ()
            if '@' in key:
                key, a = key.split('@')
                al = (int(a),)
            m = self.idx.bykey.get(key)
            if m is None or self.idx.funcs[m]['body'] is None:
                raise ExtractError('function %s not found in /repo' % key)
            self.request(self.idx.funcs[m], al)
        while self.queue:
            m, alias = self.queue.pop(0)
            f = self.idx.funcs[m]
            tr = FnTr(self, f, alias)
            text = tr.translate()
            self.emitted[(m, alias)] = text
            self.order.append((m, alias))


def fname(s):
    return s + '_' if s in KEYWORDS else s


class Contract:
    def __init__(self, key):
        self.key = key
        self.sec = {}      # name -> text
        self.loops = {}    # n -> {sec: text}
        self.calls = {}    # ('name', n, 'after'|'before') -> text
        self.flags = {}
        self.used = False

    def get(self, s):
        return self.sec.get(s, '').strip()


def parse_specs(text, fname_=''):
    """Contract file parser."""
    out = {}
    cur = None
    tgt = None
    for ln, line in enumerate(text.split('\n'), 1):
        if line.startswith('@'):
            parts = line[1:].split(None, 1)
            d = parts[0]
            arg = parts[1].strip() if len(parts) > 1 else ''
            if d == 'fn':
                cur = Contract(arg)
                if arg in out:
                    raise ExtractError('%s:%d duplicate contract %s' % (fname_, ln, arg))
                out[arg] = cur
                tgt = None
                loop = None
            elif d in ('requires', 'ensures', 'throws', 'maythrow', 'entry', 'exit', 'err', 'onerr', 'static', 'decreases', 'binds', 'aliasrequires'):
                cur.sec[d] = arg + '\n'
                tgt = (cur.sec, d)
            elif d == 'loop':
                loop = cur.loops.setdefault(int(arg), {})
                tgt = None
            elif d in ('inv', 'xinv', 'lens', 'dec', 'top', 'end', 'after', 'before'):
                loop[d] = arg + '\n'
                tgt = (loop, d)
            elif d in ('aftercall', 'beforecall'):
                am = re.match(r'^(\S+)\s+(\d+)(?:\s+(.*))?$', arg)
                kk = (am.group(1), int(am.group(2)), d)
                cur.calls[kk] = (am.group(3) or '') + '\n'
                tgt = (cur.calls, kk)
            elif d == 'flag':
                for w in arg.split():
                    cur.flags[w] = True
            elif d == 'attr':
                cur.sec['attr'] = cur.sec.get('attr', '') + arg + '\n'
            elif d == 'end_fn':
                cur = None
            else:
                raise ExtractError('%s:%d: unknown directive @%s' % (fname_, ln, d))
        elif line.startswith('#'):
            continue
        elif tgt is not None:
            tgt[0][tgt[1]] += line + '\n'
        elif line.strip():
            raise ExtractError('%s:%d: stray text %r' % (fname_, ln, line))
    return out


class Scope:
    def __init__(self):
        self.map = {}


class FnTr:
    def __init__(self, mod, f, alias=()):
        self.mod = mod
        self.f = f
        self.ty = mod.ty
        self.alias = tuple(alias)
        self.out = []
        self.ind = 1
        self.ntmp = 0
        self.loopn = 0
        self.env = {}           # (tu, decl id) -> place text
        self.envtype = {}
        self.tu = f['tu']
        self.c = mod.contract(f)
        self.locals = []        # (name, type)
        self.inl = []           # inline stack
        self.callcount = {}
        self.stepstack = []
        self.fthrows = mod.may_throw(f)
        self.statics = []
        self.lastline = None
        self.droppedvars = set()

    def err(self, msg, n=None):
        raise ExtractError('%s: %s%s' % (self.f['key'], msg, (' (line %s)' % n.get('_line')) if n else ''))

    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def hint(self, text, what=''):
        text = (text or '').strip()
        for a in self.alias:
            pn = fname(self.f['params'][a].get('name'))
            text = re.sub(r'(?<![\w.])%s(?!\w)' % pn, 'this', text)
        rest = []
        for l in text.split('\n'):
            # ghost snapshots live in the function's scope, not in the proof block
            (self.emit if l.strip().startswith('let ghost ') else rest.append)(l)
        if ''.join(rest).strip():
            self.emit('proof { /* hint %s */' % what)
            for l in rest:
                self.emit('    ' + l)
            self.emit('}')

    def tmp(self):
        self.ntmp += 1
        return 'tmp__%d' % self.ntmp

    # ================= function =====================================
    def translate(self):
        f, mod = self.f, self.mod
        modular = mod.assumed(f)
        extern = bool(self.c and self.c.flags.get('extern')) or bool(modular)
        if f['body'] is None and not extern:
            self.err('no body available')
        isctor = f['kind'] == 'CXXConstructorDecl'
        self.isctor = isctor
        ismeth = f['cls'] is not None and not f['static'] and not isctor
        params = []
        pre = []
        self.thisname = None
        if ismeth:
            rn = mod.need_struct(f['cls'])
            self.thisname = 'this'
            params.append('this: %s%s' % ('&' if f['const'] else '&mut ', rn))
        if isctor:
            rn = mod.need_struct(f['cls'])
            self.thisname = 'this'
        mutated = set() if extern else self.mutated_params(f)
        for i, p in enumerate(f['params']):
            q = qual(p)
            name = fname(p.get('name') or 'unnamed%d' % i)
            if i in self.alias:
                # const T& parameter bound to *this
                self.env[(self.tu, p['id'])] = '(*this)'
                continue
            t = self.ty.rust(q)
            self.note_type(q)
            if q.strip().endswith('&'):
                cst = q.strip().startswith('const ')
                if cst and (t in BITS or t == 'bool'):
                    params.append('%s: %s' % (name, t))
                else:
                    params.append('%s: %s%s' % (name, '&' if cst else '&mut ', t))
                if cst and (t in BITS or t == 'bool'):
                    self.env[(self.tu, p['id'])] = name
                else:
                    self.env[(self.tu, p['id'])] = '(*%s)' % name
            else:
                params.append('%s: %s' % (name, t))
                if i in mutated or t.startswith('Vec') or self.ty.find_class(q):
                    pre.append('let ghost %s__in = %s;' % (name, name))
                    pre.append('let mut %s = %s;' % (name, name))
                else:
                    pre.append('let ghost %s__in = %s;' % (name, name))
                self.env[(self.tu, p['id'])] = name
            self.locals.append((name, t))
        rq = f['node']['type']['qualType']
        rq = rq[:rq.find('(')].strip()
        if isctor:
            self.rtype = rn
        else:
            rd = f['node']['type'].get('desugaredQualType')
            # return type: prefer resolution through rust()
            self.rtype = self.ret_type(rq)
        self.retref = rq.endswith('&') and not isctor
        self.isctor = isctor
        if extern:
            # assumed contract: the body is not translated (recorded as an assumption)
            name = mod.fn_name(f, self.alias)
            mod.dropped.append((f['key'], 'contract assumed here; its body is verified against the same contract by check %s' % modular if modular else 'contract assumed, body not verified'))
            rt = 'Result<%s, Exc>' % self.rtype if self.fthrows else self.rtype
            text = '// ---- %s (assumed)\n#[verifier::external_body]\npub fn %s(%s) -> (r__: %s)\n' % (f['key'], name, ', '.join(params), rt)
            text += self.contract_text() + '{ unimplemented!() }\n'
            mod.assumed_keys.append((f['key'], modular or 'no check'))
            mod.info[(f['m'], self.alias)] = dict(key=f['key'], name=name, locals=[], loops=0, file=f['file'], line=f['line'], contract=True, throws=self.fthrows, assumed=True)
            return text
        for s in pre:
            self.emit(s)
        if isctor:
            self.emit_ctor_init(f, rn)
        for st in self.find_statics(f['body']):
            pass
        if self.c:
            self.hint(self.c.get('entry'), 'entry')
        self.stmts(f['body'].get('inner', []))
        if isctor or self.rtype == '()':
            if not self.ends_with_return(f['body']):
                self.emit_return('this' if isctor else '()')
        else:
            if not self.ends_with_return(f['body']):
                # falling off the end of a value-returning function is UB: must be unreachable
                self.emit('proof { assert(false); } // control reaches end of non-void function')
                self.emit('loop decreases 0int { }' if False else 'return unreached();')
        body = '\n'.join(self.out)
        name = mod.fn_name(f, self.alias)
        ret = self.rtype
        rt = 'Result<%s, Exc>' % ret if self.fthrows else ret
        head = '// ---- %s\n//      %s:%s\n' % (f['key'], f['file'], f['line'])
        head += '#[verifier::loop_isolation(false)]\n'
        if any(re.match(r'\s*(ensures|invariant_except_break)\b', l) for o in self.out for l in o.split('\n')):
            head += '#[verifier::allow_complex_invariants]\n'
        if self.c and self.c.get('attr'):
            head += self.c.get('attr') + '\n'
        head += 'fn %s(%s) -> (r__: %s)\n' % (name, ', '.join(params), rt)
        head += self.contract_text()
        text = head + '{\n' + body + '\n}\n'
        mod.info[(f['m'], self.alias)] = dict(key=f['key'], name=name, locals=self.locals, loops=self.loopn,
                                              file=f['file'], line=f['line'], contract=bool(self.c), throws=self.fthrows)
        text = self.rename_locals(text)
        return text

    def rename_locals(self, text):
        base = getattr(self.mod, 'baseline_locals', {}).get(self.f['key'])
        if not base or not self.c:
            return text
        cur = [(a, b) for a, b in self.locals]
        curn = set(a for a, b in cur)
        basen = set(a for a, b in base)
        missing = [(a, b) for a, b in base if a not in curn]
        extra = [(a, b) for a, b in cur if a not in basen]
        ren = {}
        used = set()
        for a, b in missing:
            for j, (x, y) in enumerate(extra):
                if j not in used and y == b:
                    used.add(j)
                    ren[a] = x
                    break
        if not ren:
            return text
        # contract text is spliced inside; rename only inside contract clauses and hints: since the
        # missing names do not occur in the translated code, a global token rename is safe.
        for a, x in ren.items():
            text = re.sub(r'(?<![\w.])%s(?![\w])' % re.escape(a), x, text)
            text = re.sub(r'(?<![\w.])%s__in(?![\w])' % re.escape(a), x + '__in', text)
        return text

    def ret_type(self, rq):
        if rq.endswith('&'):
            base = strip_ref(rq)
            # returning *this or a reference parameter: dropped value
            return '()'
        return self.ty.rust_in(rq, self.f) if hasattr(self.ty, 'rust_in') else self.ty.rust(self.resolve_t(rq))

    def resolve_t(self, q):
        return q

    def note_type(self, q):
        c = None
        q = strip_ref(q)
        q2 = q.rstrip('*').strip()
        if q2 in INT or q2 == 'void' or re.match(r'^(std::)?vector', q2):
            return
        c = self.ty.find_class(q2)
        if c:
            self.mod.need_struct(c)

    def contract_text(self):
        c = self.c
        s = ''
        if not c:
            # no contract: nothing may be assumed about the result
            return ''
        c.used = True
        def clean(t):
            t = t.strip()
            return t.rstrip(',')
        req = c.get('requires')
        ens = c.get('ensures')
        thr = c.get('throws')
        mthr = c.get('maythrow')
        oe = c.get('onerr')
        if self.alias:
            p = self.f['params'][self.alias[0]]
            pn = fname(p.get('name'))
            rep = 'this' if self.f['const'] else 'old(this)'
            fn = lambda t: re.sub(r'(?<![\w.])(old\(%s\)|%s)(?!\w)' % (pn, pn), rep, t)
            req, ens, thr, mthr, oe = fn(req), fn(ens), fn(thr), fn(mthr), fn(oe)
            ar = c.get('aliasrequires')
        if req:
            s += '    requires\n        ' + clean(req) + ',\n'
        if self.fthrows:
            t = 'false'
            post = []
            if ens:
                post.append('match r__ { Ok(ret) => { ' + ' && '.join('(%s)' % x for x in split_commas(clean(ens))) + ' }, Err(_) => true }')
            if thr:
                post.append('match r__ { Ok(ret) => !(%s), Err(_) => (%s) }' % (clean(thr), clean(thr)))
            elif mthr:
                post.append('match r__ { Ok(ret) => true, Err(_) => (%s) }' % clean(mthr))
            else:
                post.append('r__.is_ok()')
            if oe:
                post.append('match r__ { Ok(ret) => true, Err(_) => { %s } }' % ' && '.join('(%s)' % x for x in split_commas(clean(oe))))
            s += '    ensures\n        ' + ',\n        '.join(post) + ',\n'
        else:
            post = []
            if ens:
                post += ['({ let ret = r__; %s })' % x for x in split_commas(clean(ens))]
            if thr:
                post.append('!(%s)' % clean(thr))
            if post:
                s += '    ensures\n        ' + ',\n        '.join(post) + ',\n'
        if c.get('decreases'):
            s += '    decreases ' + c.get('decreases') + '\n'
        return s

    def mutated_params(self, f):
        ids = {p['id']: i for i, p in enumerate(f['params'])}
        mut = set()
        def base_ref(n):
            n = skip(n)
            while n['kind'] in ('MemberExpr', 'ArraySubscriptExpr'):
                n = skip(n['inner'][0])
            if n['kind'] == 'DeclRefExpr':
                return n['referencedDecl']['id']
            return None
        def w(n):
            if not isinstance(n, dict) or 'kind' not in n:
                return
            k = n['kind']
            if (k == 'BinaryOperator' and n.get('opcode') == '=') or k == 'CompoundAssignOperator':
                r = base_ref(n['inner'][0])
                if r in ids: mut.add(ids[r])
            if k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
                r = base_ref(n['inner'][0])
                if r in ids: mut.add(ids[r])
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
                for a in n.get('inner', []):
                    if isinstance(a, dict) and a.get('kind') == 'DeclRefExpr' and a.get('valueCategory') == 'lvalue' and a['referencedDecl']['id'] in ids:
                        mut.add(ids[a['referencedDecl']['id']])
            for c in n.get('inner', []):
                w(c)
        w(f['body'])
        return mut

    def find_statics(self, body):
        return []

    def emit_ctor_init(self, f, rn):
        cls = f['cls']
        fields = self.mod.idx.classes[cls]['fields']
        inits = {}
        for c in f['node'].get('inner', []):
            if c['kind'] == 'CXXCtorInitializer':
                if 'anyInit' in c:
                    if c.get('inner'):
                        inits[c['anyInit']['name']] = c['inner'][0]
                else:
                    self.err('delegating/base initializer')
        parts = []
        for name, q, node in fields:
            t = self.ty.rust(q)
            if name in inits:
                e = inits[name]
                v = self.rval(e)
            else:
                ini = [x for x in node.get('inner', []) if 'valueCategory' in x]
                if node.get('hasInClassInitializer') and ini:
                    v = self.rval(ini[0])
                else:
                    v = self.default_value(q)
            tv = self.tmp()
            self.emit('let %s: %s = %s;' % (tv, t, v))
            parts.append('%s: %s' % (fname(name), tv))
        self.emit('let mut this = %s { %s };' % (rn, ', '.join(parts)))

    def default_value(self, q):
        t = self.ty.rust(q)
        if t in BITS or t == 'bool':
            return 'any_%s()' % t
        if t.startswith('Vec<'):
            return 'Vec::new()'
        if t.startswith('Buf<'):
            return 'buf_wild()'
        c = self.ty.find_class(q)
        self.mod.need_struct(c)
        d = self.mod.default_ctor(c)
        if d is None:
            self.err('no default constructor for ' + c)
        return self.call(d, [], None)

    # ================= statements ===================================
    def ends_with_return(self, n):
        if n is None or 'kind' not in n:
            return False
        k = n['kind']
        if k == 'CompoundStmt':
            inner = [c for c in n.get('inner', []) if c.get('kind') != 'NullStmt']
            return any(self.ends_with_return(c) for c in inner)
        if k in ('ReturnStmt',):
            return True
        if k == 'CXXThrowExpr':
            return True
        if k == 'ExprWithCleanups':
            return self.ends_with_return(n['inner'][0])
        if k == 'IfStmt':
            ins = n['inner']
            if self.static_then(n):
                return True
            return n.get('hasElse') and len(ins) >= 3 and self.ends_with_return(ins[-2]) and self.ends_with_return(ins[-1])
        if k == 'WhileStmt' or k == 'ForStmt':
            cond = n['inner'][0] if k == 'WhileStmt' else n['inner'][2]
            if (cond == {} or self.const_val(cond) not in (None, 0)) and not self.has_break(n['inner'][-1]):
                return True
            return False
        if k == 'SwitchStmt':
            return self.switch_terminates(n)
        if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
            return False
        return False

    def switch_terminates(self, n):
        groups, hasdef = self.switch_groups(n)
        return hasdef and all(any(self.ends_with_return(s) for s in g[1]) for g in groups)

    def has_break(self, n):
        if not isinstance(n, dict) or 'kind' not in n:
            return False
        if n['kind'] == 'BreakStmt':
            return True
        if n['kind'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'SwitchStmt', 'CXXForRangeStmt', 'LambdaExpr'):
            return False
        return any(self.has_break(c) for c in n.get('inner', []))

    def has_continue(self, n):
        if not isinstance(n, dict) or 'kind' not in n:
            return False
        if n['kind'] == 'ContinueStmt':
            return True
        if n['kind'] in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr'):
            return False
        return any(self.has_continue(c) for c in n.get('inner', []))

    def stmts(self, ss):
        for s in ss:
            if not isinstance(s, dict) or 'kind' not in s:
                continue
            self.stmt(s)
            if self.ends_with_return(s) or s['kind'] in ('BreakStmt', 'ContinueStmt'):
                break

    def block(self, s):
        """statements of a (possibly non-compound) statement"""
        if s is None or not s:
            return
        if s['kind'] == 'CompoundStmt':
            self.stmts(s.get('inner', []))
        else:
            self.stmts([s])

    def stmt(self, n):
        k = n['kind']
        if n.get('_line') and n['_line'] != self.lastline and not self.inl:
            self.lastline = n['_line']
            self.emit('// line %s' % n['_line'])
        if k == 'NullStmt':
            return
        if k == 'CompoundStmt':
            self.emit('{')
            self.ind += 1
            self.stmts(n.get('inner', []))
            self.ind -= 1
            self.emit('}')
            return
        if k == 'DeclStmt':
            for d in n['inner']:
                self.decl(d)
            return
        if k == 'ReturnStmt':
            inner = n.get('inner', [])
            if not inner or not inner[0]:
                self.do_return(None, n)
            else:
                self.do_return(inner[0], n)
            return
        if k == 'IfStmt':
            return self.if_stmt(n)
        if k == 'WhileStmt':
            ins = n['inner']
            if len(ins) != 2:
                self.err('while with declaration', n)
            return self.loop(None, ins[0], None, ins[1], n)
        if k == 'ForStmt':
            init, condvar, cond, inc, body = n['inner']
            if condvar:
                self.err('for with condition variable', n)
            return self.loop(init or None, cond or None, inc or None, body, n)
        if k == 'DoStmt':
            body, cond = n['inner']
            if self.const_val(cond) == 0 and not self.has_break(body) and not self.has_continue(body):
                self.emit('{')
                self.ind += 1
                self.block(body)
                self.ind -= 1
                self.emit('}')
                return
            return self.loop(None, cond, None, body, n, dowhile=True)
        if k == 'BreakStmt':
            if self.stepstack and self.stepstack[-1][0] == 'switch':
                self.err('break inside a nested statement of a switch', n)
            self.emit('break;')
            return
        if k == 'ContinueStmt':
            if not self.stepstack:
                self.err('continue', n)
            fn = self.stepstack[-1][1]
            fn()
            self.emit('continue;')
            return
        if k == 'SwitchStmt':
            return self.switch(n)
        if k == 'CXXThrowExpr':
            return self.throw(n)
        # expression statement
        e = skip(n)
        if e['kind'] == 'CXXThrowExpr':
            return self.throw(e)
        if self.stream_root(e):
            self.mod.dropped.append((self.f['key'], 'stream output at line %s' % n.get('_line')))
            return
        self.expr_stmt(e)

    def throw(self, n):
        if self.c and self.c.get('err'):
            self.hint(self.c.get('err'), 'err')
        self.emit_static_checks()
        self.emit('return Err(Exc);')

    def stream_root(self, e):
        """ss << ... << ...  (or std::cout/cerr)"""
        e = skip(e)
        while e['kind'] in ('ImplicitCastExpr',):
            e = skip(e['inner'][0])
        if e['kind'] == 'CXXOperatorCallExpr':
            callee = skip(e['inner'][0])
            if callee['kind'] == 'DeclRefExpr' and callee['referencedDecl']['name'] == 'operator<<' and is_stream(qual(e)):
                return self.stream_root(e['inner'][1])
            return False
        if e['kind'] == 'CXXMemberCallExpr':
            me = skip(e['inner'][0])
            if me['kind'] == 'MemberExpr' and is_stream(qual(me['inner'][0])):
                return True
            return False
        if e['kind'] == 'DeclRefExpr':
            return is_stream(qual(e))
        return False

    def decl(self, d):
        if d['kind'] in ('StaticAssertDecl', 'UsingDecl', 'TypedefDecl', 'UsingDirectiveDecl', 'TypeAliasDecl'):
            return
        if d['kind'] != 'VarDecl':
            self.err('declaration ' + d['kind'], d)
        q = qual(d)
        if is_stream(q):
            self.mod.dropped.append((self.f['key'], 'diagnostic stream %s' % d['name']))
            return
        name = self.local_name(d['name'])
        init = None
        for c in d.get('inner', []):
            if 'valueCategory' in c:
                init = c
        if d.get('storageClass') == 'static' and re.match(r'^.*\[\d+\]$', q.strip()) and init is not None:
            self.mod.local_tables[(self.tu, d['id'])] = d    # read as a table (a write to it does not compile)
            return
        if d.get('storageClass') == 'static' and not strip_ref(q).startswith('const') and not d.get('constexpr') and not q.strip().startswith('const '):
            return self.static_local(d, name, init)
        self.note_type(q)
        if q.strip().endswith('&'):
            # reference local: alias of a place whose indices are fixed now
            if init is None:
                self.err('reference without initializer', d)
            if q.strip().startswith('const ') and skip(init).get('valueCategory') == 'prvalue':
                t = self.ty.rust(q)
                v = self.rval(init)
                self.emit('let %s: %s = %s;' % (name, t, v))
                self.env[(self.tu, d['id'])] = name
                self.locals.append((name, t))
                return
            pl = self.place(init, freeze=True)
            self.env[(self.tu, d['id'])] = pl
            return
        m = re.match(r'^(.*)\[(\d+)\]$', q.strip())
        if m:
            return self.local_array(d, name, m.group(1).strip(), int(m.group(2)), init)
        t = self.ty.rust(q)
        if t.startswith('Buf<') and init is not None:
            x = skip(init)
            while x['kind'] == 'ImplicitCastExpr' and x['castKind'] in ('LValueToRValue', 'NoOp', 'BitCast'):
                x = skip(x['inner'][0])
            if x['kind'] in ('DeclRefExpr', 'MemberExpr') and qual(x).rstrip().endswith('*'):
                src = self.place(x, freeze=True)
                if self.ptr_stable(d, x):
                    self.env[(self.tu, d['id'])] = src      # another name for the same array
                else:
                    # the array changes hands: the source must not be used until it is assigned again
                    self.emit('let mut %s: %s = buf_take(&mut %s);' % (name, t, src))
                    self.env[(self.tu, d['id'])] = name
                    self.locals.append((name, t))
                return
        # detect raw new
        if init is None:
            v = self.default_value(q)
        else:
            v = self.rval(init, want=t)
        self.emit('let mut %s: %s = %s;' % (name, t, v))
        self.env[(self.tu, d['id'])] = name
        self.locals.append((name, t))

    def ptr_stable(self, d, src):
        """Neither the local pointer d nor the pointer it was read from is assigned, deleted or swapped in this function."""
        sname = src.get('name') if src['kind'] == 'MemberExpr' else None
        sid = src['referencedDecl']['id'] if src['kind'] == 'DeclRefExpr' else None
        def hit(x):
            x = skip(x)
            while x['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr'):
                x = skip(x['inner'][0])
            if x['kind'] == 'DeclRefExpr':
                return x['referencedDecl']['id'] in (d['id'], sid)
            return x['kind'] == 'MemberExpr' and sname is not None and x.get('name') == sname and qual(x).rstrip().endswith('*')
        def w(n):
            if not isinstance(n, dict) or 'kind' not in n:
                return True
            k = n['kind']
            if ((k == 'BinaryOperator' and n.get('opcode') == '=') or k in ('CompoundAssignOperator', 'CXXDeleteExpr') or (k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'))) and hit(n['inner'][0]):
                return False
            return all(w(c) for c in n.get('inner', []))
        body = self.f['body'] if not self.inl else self.mod.idx.funcs[self.inl[-1]['m']]['body']
        return w(body)

    def local_array(self, d, name, eq, n, init):
        t = self.ty.rust(eq)
        if init is not None:
            i = skip(init)
            if i['kind'] != 'InitListExpr':
                self.err('array initializer', d)
            vals = [self.rval(x) for x in i.get('inner', [])]
            if len(vals) != n:
                self.err('partial array initializer', d)
            self.emit('let mut %s: Vec<%s> = Vec::new();' % (name, t))
            for v in vals:
                self.emit('%s.push(%s);' % (name, v))
        else:
            self.emit('let mut %s: Vec<%s> = wild_vec_%s(%d);' % (name, t, t, n))
        self.env[(self.tu, d['id'])] = name
        self.locals.append((name, 'Vec<%s>' % t))

    def static_local(self, d, name, init):
        q = qual(d)
        t = self.ty.rust(q)
        if t not in BITS and t != 'bool':
            self.err('static local of class type', d)
        inv = ' && '.join('(%s)' % x for x in split_commas(self.c.get('static').strip().rstrip(','))) if self.c and self.c.get('static') else ''
        iv = self.const_val(init) if init is not None else 0
        if iv is None:
            self.err('static local initializer', d)
        self.emit('let mut %s: %s = any_%s();' % (name, t, t))
        self.env[(self.tu, d['id'])] = name
        self.locals.append((name, t))
        self.statics.append((name, t, iv))
        if inv:
            # assume the invariant once all statics mentioned are declared
            names = set(re.findall(r'\w+', inv))
            if getattr(self, 'static_done', False):
                return
            pend = [nm for nm in self.c.sec.get('binds', '').split() if nm not in [s[0] for s in self.statics]]
            if not pend:
                self.static_done = True
                self.emit('proof { assume(%s); } // static invariant' % inv.strip().rstrip(','))
                lets = ' '.join('let %s: %s = %d%s;' % (a, b, v, b) if v >= 0 else 'let %s: %s = %d%s;' % (a, b, v, b) for a, b, v in self.statics)
                self.emit('assert({ %s %s }); // static invariant holds initially' % (lets, inv.strip().rstrip(',')))

    def emit_static_checks(self):
        if self.statics and getattr(self, 'static_done', False):
            self.emit('assert(%s); // static invariant preserved' % ' && '.join('(%s)' % x for x in split_commas(self.c.get('static').strip().rstrip(','))))

    def local_name(self, s):
        s = fname(s)
        if self.inl:
            s = s + '__i%d' % self.inl[-1]['n']
        return s

    def static_then(self, n):
        """if (this == &that) return ...; in the alias-specialised copy: what follows is never reached."""
        if not self.alias or n.get('hasElse') or n.get('hasInit') or n.get('hasVar'):
            return False
        c = skip(n['inner'][0])
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('==', '!='):
            return False
        if not any(skip(x)['kind'] == 'CXXThisExpr' for x in c['inner']):
            return False
        return self.ptr_cmp(c) == 'true' and self.ends_with_return(n['inner'][1])

    def if_stmt(self, n):
        ins = [x for x in n['inner']]
        if self.static_then(n):
            self.block(ins[1])
            return
        if n.get('hasInit') or n.get('hasVar'):
            self.err('if with init/var', n)
        cond, then = ins[0], ins[1]
        els = ins[2] if n.get('hasElse') else None
        cv = self.const_val(cond)
        c = self.cond(cond)
        self.emit('if %s {' % c)
        self.ind += 1
        self.block(then)
        self.ind -= 1
        if els is not None:
            self.emit('} else {')
            self.ind += 1
            self.block(els)
            self.ind -= 1
        self.emit('}')

    def capture(self, fn):
        """Run fn with a fresh out buffer; returns (result, lines)."""
        sv = self.out
        self.out = []
        try:
            r = fn()
            return r, self.out
        finally:
            self.out = sv

    def loop(self, init, cond, inc, body, n, dowhile=False):
        bl = (((self.c.loops.get(self.loopn) if self.c else None) or {}).get('before') or '').split('\n')
        for l in bl:
            if l.strip().startswith('let ghost '):
                self.emit(l)
        self.emit('{')
        self.ind += 1
        if init is not None:
            if init['kind'] == 'DeclStmt':
                self.stmt(init)
            else:
                self.expr_stmt(skip(init))
        num = self.loopn
        self.loopn += 1
        L = (self.c.loops.get(num) if self.c else None) or {}
        self.hint('\n'.join(l for l in bl if not l.strip().startswith('let ghost ')), 'before loop %d' % num)
        def sec(name):
            t = L.get(name, '').strip().rstrip(',')
            for a in self.alias:
                t = re.sub(r'(?<![\w.])%s(?!\w)' % fname(self.f['params'][a].get('name')), 'this', t)
            return t
        inv, xinv, lens, dec = sec('inv'), sec('xinv'), sec('lens'), sec('dec')
        clauses = []
        if xinv: clauses.append('    invariant_except_break\n' + '    ' * (self.ind + 2) + xinv + ',')
        if inv: clauses.append('    invariant\n' + '    ' * (self.ind + 2) + inv + ',')
        if dec: pass
        # condition
        cexpr, hoist = ('true', [])
        if cond is not None:
            self.ind += 1
            svcalls = dict(self.callcount)
            cexpr, hoist = self.capture(lambda: self.cond(cond))
            self.ind -= 1
        def step():
            if inc is not None:
                self.expr_stmt(skip(inc))
        native = (not hoist) and (not dowhile) and cexpr != 'true' and not self.has_break(body)
        if native:
            self.emit('while %s' % cexpr)
        else:
            self.emit('loop')
            if lens: clauses.append('    ensures\n' + '    ' * (self.ind + 2) + lens + ',')
            elif not hoist and not dowhile and cexpr != 'true' and not self.has_break(body) :
                clauses.append('    ensures !(%s),' % cexpr)
        if dec: clauses.append('    decreases ' + dec + ',')
        for c in clauses:
            self.emit(c)
        self.emit('{')
        self.ind += 1
        if not native and not dowhile and cexpr != 'true':
            self.out += hoist
            self.emit('if !(%s) { break; }' % cexpr)
        self.hint(L.get('top'), 'top of loop %d' % num)
        def cont():
            if dowhile:
                self.err('continue in do-while', n)
            self.hint(L.get('end'), 'end of loop %d' % num)
            step()
        self.stepstack.append(('loop', cont))
        self.block(body)
        self.stepstack.pop()
        if not self.always_leaves(body):
            self.hint(L.get('end'), 'end of loop %d' % num)
            step()
            if dowhile:
                self.out += hoist
                self.emit('if !(%s) { break; }' % cexpr)
        self.ind -= 1
        self.emit('}')
        self.hint(L.get('after'), 'after loop %d' % num)
        self.ind -= 1
        self.emit('}')

    def always_leaves(self, body):
        if self.ends_with_return(body):
            return True
        if body['kind'] == 'CompoundStmt':
            return any(c.get('kind') in ('BreakStmt', 'ContinueStmt') for c in body.get('inner', []))
        return body['kind'] in ('BreakStmt', 'ContinueStmt')

    def switch_groups(self, n):
        body = n['inner'][-1]
        groups = []
        hasdef = False
        def add(s):
            nonlocal hasdef
            if s['kind'] == 'CaseStmt':
                v = self.const_val(s['inner'][0])
                if v is None:
                    self.err('non-constant case', s)
                if groups and not groups[-1][1]:
                    groups[-1][0].append(v)
                else:
                    groups.append(([v], []))
                add(s['inner'][-1])
            elif s['kind'] == 'DefaultStmt':
                hasdef = True
                if groups and not groups[-1][1]:
                    groups[-1][0].append('default')
                else:
                    groups.append((['default'], []))
                add(s['inner'][-1])
            else:
                if not groups:
                    self.err('statement before first case', s)
                groups[-1][1].append(s)
        for s in body.get('inner', []):
            add(s)
        return groups, hasdef

    def switch(self, n):
        groups, hasdef = self.switch_groups(n)
        t = self.ty.rust(qual(n['inner'][0]))
        v = self.rval(n['inner'][0])
        sv = self.tmp()
        self.emit('let %s: %s = %s;' % (sv, t, v))
        default = None
        first = True
        order = [g for g in groups if 'default' not in g[0]] + [g for g in groups if 'default' in g[0]]
        closes = 0
        for g in order:
            vals, ss = g
            # statements up to break/return
            body = []
            term = False
            for s in ss:
                if s['kind'] == 'BreakStmt':
                    term = True
                    break
                if s['kind'] == 'CompoundStmt' and s.get('inner') and s['inner'][-1].get('kind') == 'BreakStmt':
                    body += s['inner'][:-1]
                    term = True
                    break
                body.append(s)
                if self.ends_with_return(s):
                    term = True
                    break
            if not term and g is not groups[-1]:
                self.err('switch fall-through', n)
            for s in body:
                if self.has_break(s):
                    self.err('nested break in switch', n)
            if 'default' in vals:
                if first:
                    self.emit('{')
                else:
                    self.emit('{')
            else:
                self.emit('if ' + ' || '.join('%s == %s' % (sv, lit(x, t)) for x in vals) + ' {')
            self.ind += 1
            self.stmts(body)
            self.ind -= 1
            if 'default' in vals:
                self.emit('}')
            elif g is not order[-1]:
                self.emit('} else ')
            else:
                self.emit('}')
            first = False

    # ---- return ------------------------------------------------------
    def do_return(self, e, n):
        if self.inl:
            self.err('early return in inlined function', n)
        if self.retref and not self.isctor:
            # returns a reference: allowed only for *this / reference params / places; value not modelled
            ee = skip(e)
            if ee['kind'] in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
                self.expr_stmt(ee)
            elif ee['kind'] == 'BinaryOperator' and ee.get('opcode') == '=':
                self.expr_stmt(ee)
            else:
                self.place(e)
            return self.emit_return('()')
        if e is None:
            return self.emit_return('this' if self.isctor else '()')
        ee = skip(e)
        if self.rtype == '()':
            self.expr_stmt(ee)
            return self.emit_return('()')
        v = self.ret_value(e)
        self.emit_return(v)

    def ret_value(self, e):
        # NRVO: returning a local by name moves it
        x = skip(e)
        if x['kind'] == 'CXXConstructExpr' and len(x.get('inner', [])) == 1:
            y = skip(x['inner'][0])
            if y['kind'] == 'ImplicitCastExpr':
                y = skip(y['inner'][0])
            if y['kind'] == 'DeclRefExpr' and y['referencedDecl']['kind'] == 'VarDecl' and self.env.get((self.tu, y['referencedDecl']['id'])) in [a for a, b in self.locals] and self.ty.find_class(qual(y)) == self.ty.find_class(qual(x)):
                nm = self.env[(self.tu, y['referencedDecl']['id'])]
                return nm
        return self.rval(e, want=self.rtype)

    def emit_return(self, v):
        self.emit_static_checks()
        ex = self.c.get('exit') if self.c else ''
        if self.rtype == '()' and not self.isctor:
            self.hint(ex, 'exit')
            self.emit('return Ok(());' if self.fthrows else 'return;')
            return
        if ex:
            self.emit('let ret: %s = %s;' % (self.rtype, v))
            self.hint(ex, 'exit')
            v = 'ret'
        self.emit('return Ok(%s);' % v if self.fthrows else 'return %s;' % v)

    # ================= expressions ==================================
    def const_val(self, n):
        if not n or 'kind' not in n:
            return None
        n = skip(n)
        k = n['kind']
        if k == 'IntegerLiteral':
            return wrapc(int(n['value']), INT.get(strip_ref(qual(n)), 'i32'))
        if k == 'CXXBoolLiteralExpr':
            return 1 if n['value'] else 0
        if k == 'CharacterLiteral':
            return int(n['value'])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr'):
            v = self.const_val(n['inner'][0])
            if v is None:
                return None
            if n['castKind'] in ('IntegralCast', 'LValueToRValue', 'NoOp', 'IntegralToBoolean'):
                q = strip_ref(qual(n))
                if q not in INT:
                    return None
                return wrapc(v, INT[q])
            return None
        if k == 'UnaryOperator':
            v = self.const_val(n['inner'][0])
            q = strip_ref(qual(n))
            if v is None or q not in INT:
                return None
            op = n['opcode']
            if op == '-': return wrapc(-v, INT[q])
            if op == '+': return v
            if op == '~': return wrapc(~v, INT[q])
            if op == '!': return 0 if v else 1
            return None
        if k == 'BinaryOperator':
            a, b = self.const_val(n['inner'][0]), self.const_val(n['inner'][1])
            q = strip_ref(qual(n))
            if a is None or b is None or q not in INT:
                return None
            op = n['opcode']
            try:
                if op == '+': r = a + b
                elif op == '-': r = a - b
                elif op == '*': r = a * b
                elif op == '/': r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                elif op == '<<': r = a << b
                elif op == '>>': r = a >> b
                elif op == '&': r = a & b
                elif op == '|': r = a | b
                elif op == '^': r = a ^ b
                else: return None
            except Exception:
                return None
            w = wrapc(r, INT[q])
            if w != r and signed(INT[q]) and op in '+-*/':
                return None
            return w
        if k == 'DeclRefExpr':
            d = self.mod.idx.byid.get((self.tu, n['referencedDecl']['id']))
            if d is not None and d['kind'] == 'VarDecl' and qual(d).startswith('const ') and strip_ref(qual(d)) in INT:
                for c in d.get('inner', []):
                    v = self.const_val(c) if 'kind' in c else None
                    if v is not None:
                        return wrapc(v, INT[strip_ref(qual(d))])
            return None
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            at = n.get('argType')
            q = (at.get('desugaredQualType') or at['qualType']) if at else qual(n['inner'][0])
            q = strip_ref(q)
            m = re.match(r'^(.*?)\s*\[(\d+)\]$', q)
            cnt = 1
            if m:
                q, cnt = strip_ref(m.group(1)), int(m.group(2))
            if q in INT:
                return ({'bool': 1}.get(INT[q]) or BITS[INT[q]] // 8) * cnt
        return None

    def cond(self, n):
        """boolean rvalue"""
        return self.rval(n, want='bool')

    def rval(self, n, want=None):
        """Rust expression text for the value of n (may emit statements first)."""
        cv = self.const_val(n)
        if cv is not None:
            q = strip_ref(qual(n))
            if q in INT:
                return lit(cv, INT[q])
        n = skip(n)
        k = n['kind']
        fn = getattr(self, 'e_' + k, None)
        if fn is None:
            self.err('expression ' + k, n)
        return fn(n)

    def e_CXXBoolLiteralExpr(self, n):
        return 'true' if n['value'] else 'false'

    def e_DeclRefExpr(self, n):
        # class lvalue used as value: only via copy-ctor; ints through LValueToRValue
        if n['referencedDecl'].get('kind') == 'EnumConstantDecl':
            d = self.mod.idx.byid.get((self.tu, n['referencedDecl']['id']))
            if d is None or d.get('_val') is None:
                self.err('enumerator', n)
            return lit(d['_val'], self.ty.rust(qual(n)))
        return self.place(n)

    def e_MemberExpr(self, n):
        return self.place(n)

    def e_CXXThisExpr(self, n):
        return self.this()

    def e_ArraySubscriptExpr(self, n):
        return self.place(n)

    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'):
            return self.rval(n['inner'][0])
        self.err('default argument', n)

    def e_CXXNullPtrLiteralExpr(self, n):
        return 'buf_null()'

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr

    def cast(self, n):
        ck = n['castKind']
        s = n['inner'][0]
        if ck == 'LValueToRValue':
            if qual(n).rstrip().endswith('*'):
                self.err('pointer value copied (aliasing)', n)
            return self.lv_read(s)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase'):
            return self.rval(s)
        if ck == 'IntegralCast':
            a = self.ty.rust(qual(s))
            b = self.ty.rust(qual(n))
            return self.intcast(self.rval(s), a, b)
        if ck == 'IntegralToBoolean':
            a = self.ty.rust(qual(s))
            return '(%s != %s)' % (self.rval(s), lit(0, a))
        if ck == 'PointerToBoolean':
            p = self.place_ptr(s)
            return '(!buf_is_null(&%s))' % p
        if ck == 'NullToPointer':
            return 'buf_null()'
        if ck == 'ToVoid':
            return self.rval(s)
        self.err('cast ' + ck, n)

    def intcast(self, e, a, b):
        if a == b:
            return e
        if a == 'bool':
            return '(if %s { %s } else { %s })' % (e, lit(1, b), lit(0, b))
        if b == 'bool':
            return '(%s != %s)' % (e, lit(0, a))
        if (not signed(a)) and BITS[b] > BITS[a]:
            return '(%s as %s)' % (e, b)
        if signed(a) and signed(b) and BITS[b] > BITS[a]:
            return '(%s as %s)' % (e, b)
        return 'cast_%s_%s(%s)' % (a, b, e)

    def lv_read(self, s):
        """Read an int lvalue."""
        x = skip(s)
        # assignment / ++ used as lvalue then read
        if x['kind'] in ('BinaryOperator', 'CompoundAssignOperator') or (x['kind'] == 'UnaryOperator' and x['opcode'] in ('++', '--')):
            self.expr_stmt(x)
            return self.place(x['inner'][0])
        if x['kind'] == 'ConditionalOperator':
            return self.e_ConditionalOperator(x)
        return self.place(x)

    def e_IntegerLiteral(self, n):
        return lit(self.const_val(n), self.ty.rust(qual(n)))
    e_CharacterLiteral = e_IntegerLiteral
    e_UnaryExprOrTypeTraitExpr = e_IntegerLiteral

    def e_UnaryOperator(self, n):
        op = n['opcode']
        s = n['inner'][0]
        if op in ('++', '--'):
            t = self.ty.rust(qual(n))
            if n.get('isPostfix'):
                pl = self.place(s)
                v = self.tmp()
                self.emit('let %s = %s;' % (v, pl))
                self.incdec(s, op)
                return v
            self.incdec(s, op)
            return self.place(s)
        if op == '!':
            return '!(%s)' % self.rval(s)
        t = self.ty.rust(qual(n)) if op not in ('*', '&') else None
        if op == '-':
            v = self.rval(s)
            if signed(t):
                return '(-%s)' % v
            return '(%s.wrapping_sub(%s))' % (lit(0, t), v)
        if op == '+':
            return self.rval(s)
        if op == '~':
            return '(!%s)' % self.rval(s)
        if op == '*':
            return self.place(n)
        self.err('unary ' + op, n)

    def incdec(self, s, op):
        t = self.ty.rust(qual(skip(s)))
        pl = self.place(s)
        if signed(t):
            self.emit('%s = %s %s %s;' % (pl, pl, '+' if op == '++' else '-', lit(1, t)))
        else:
            self.emit('%s = %s.%s(%s);' % (pl, pl, 'wrapping_add' if op == '++' else 'wrapping_sub', lit(1, t)))

    def arith(self, op, a, b, t, bt, bconst=None):
        if op in ('+', '-', '*'):
            if signed(t):
                return '(%s %s %s)' % (a, op, b)
            return '(%s.%s(%s))' % (a, {'+': 'wrapping_add', '-': 'wrapping_sub', '*': 'wrapping_mul'}[op], b)
        if op in ('/', '%'):
            if signed(t):
                return '%s_%s(%s, %s)' % (t, 'div' if op == '/' else 'rem', a, b)
            return '(%s %s %s)' % (a, op, b)
        if op == '&' and bconst is not None and bconst > 0 and (bconst & (bconst + 1)) == 0 and t in ('i32', 'i64', 'u32', 'u64', 'u16', 'u8') and bconst < (1 << (BITS[t] - 1)):
            return self.mod.opfn(t, 'mask', bconst) + '(%s)' % a
        if op in ('&', '|', '^'):
            return '(%s %s %s)' % (a, op, b)
        if op in ('<<', '>>'):
            if bconst is not None and 0 <= bconst < BITS[t] and (op == '>>' or not signed(t)):
                return self.mod.opfn(t, 'shl' if op == '<<' else 'shr', bconst) + '(%s)' % a
            if bconst is not None:
                b = lit(bconst, t if bconst < 128 else bt)
                return '(%s %s %s)' % (a, op, b) if not (signed(t) and op == '<<') else '%s_shl(%s, %s)' % (t, a, lit(bconst, 'u32'))
            if signed(bt):
                sh = 'shamt_%s(%s)' % (bt, b)
            elif bt == 'u32':
                sh = b
            else:
                sh = 'shamt_%s(%s)' % (bt, b)
            if signed(t) and op == '<<':
                return '%s_shl(%s, %s)' % (t, a, sh)
            return '%s_%s(%s, %s)' % (t, 'shl' if op == '<<' else 'shr', a, sh)
        raise ExtractError('op ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            self.expr_stmt(n)
            return self.place(l)
        if op == ',':
            self.expr_stmt(skip(l))
            return self.rval(r)
        if op in ('&&', '||'):
            a = self.cond(l)
            self.ind += 1
            b, h = self.capture(lambda: self.cond(r))
            self.ind -= 1
            if not h:
                return '(%s %s %s)' % (a, op, b)
            v = self.tmp()
            if op == '&&':
                self.emit('let %s: bool = if %s {' % (v, a))
                self.out += h
                self.emit('    %s' % b)
                self.emit('} else { false };')
            else:
                self.emit('let %s: bool = if %s { true } else {' % (v, a))
                self.out += h
                self.emit('    %s' % b)
                self.emit('};')
            return v
        if op in ('==', '!=', '<', '>', '<=', '>='):
            lq = qual(l)
            if lq.rstrip().endswith('*') or lq.rstrip().endswith('*const') or 'nullptr_t' in lq:
                return self.ptr_cmp(n)
            a = self.rval(l)
            b = self.rval(r)
            return '(%s %s %s)' % (a, op, b)
        t = self.ty.rust(qual(n))
        a = self.rval(l)
        # C++ leaves operand order open; a hoisted call in r could disturb a read of l only if it has side effects
        b = self.rval(r)
        bt = self.ty.rust(qual(r))
        return self.arith(op, a, b, t, bt, self.const_val(r) if op in ('<<', '>>', '&') else None)

    def ptr_cmp(self, n):
        l, r = n['inner']
        def isnull(x):
            x = skip(x)
            return x['kind'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or x.get('castKind') == 'NullToPointer' or self.const_val(x) == 0
        if isnull(r): p = l
        elif isnull(l): p = r
        else:
            # self-assignment test:  this == &that
            return self.selfcmp(n)
        e = 'buf_is_null(&%s)' % self.place_ptr(p)
        return e if n['opcode'] == '==' else '(!%s)' % e

    def selfcmp(self, n):
        l, r = [skip(x) for x in n['inner']]
        def addr(x):
            if x['kind'] == 'CXXThisExpr':
                return self.this()
            if x['kind'] == 'UnaryOperator' and x['opcode'] == '&':
                y = skip(x['inner'][0])
                if y['kind'] == 'DeclRefExpr':
                    return self.env.get((self.tu, y['referencedDecl']['id']))
            if x['kind'] == 'ImplicitCastExpr':
                return addr(skip(x['inner'][0]))
            return None
        a, b = addr(l), addr(r)
        if a is None or b is None:
            self.err('pointer comparison', n)
        same = (a == b)
        # distinct references are distinct objects here; the aliased case is a separate specialisation
        return 'true' if (same == (n['opcode'] == '==')) else 'false'

    def place_ptr(self, n):
        n = skip(n)
        if n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('LValueToRValue', 'ArrayToPointerDecay', 'BitCast', 'NoOp'):
            return self.place_ptr(n['inner'][0])
        return self.place(n)

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cc = self.cond(c)
        self.ind += 1
        av, ah = self.capture(lambda: self.rval(a))
        bv, bh = self.capture(lambda: self.rval(b))
        self.ind -= 1
        if not ah and not bh:
            return '(if %s { %s } else { %s })' % (cc, av, bv)
        v = self.tmp()
        self.emit('let %s = if %s {' % (v, cc))
        self.out += ah
        self.emit('    ' + av)
        self.emit('} else {')
        self.out += bh
        self.emit('    ' + bv)
        self.emit('};')
        return v

    # ---- places --------------------------------------------------------
    def place(self, n, freeze=False):
        n = skip(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            rd = n['referencedDecl']
            p = self.env.get((self.tu, rd['id']))
            if p is not None:
                return p
            cv = self.const_val(n)
            if cv is not None:
                return lit(cv, self.ty.rust(qual(n)))
            if rd['kind'] == 'VarDecl' and strip_ref(qual(n)) in INT:
                cv = self.global_int(rd, n)
                if cv is not None:
                    return lit(cv, self.ty.rust(qual(n)))
            self.err('reference to %s %s' % (rd['kind'], rd.get('name')), n)
        if k == 'CXXThisExpr':
            return self.this()
        if k == 'UnaryOperator' and n['opcode'] == '*':
            x = skip(n['inner'][0])
            if x['kind'] == 'CXXThisExpr':
                return self.this()
            # *p  -> p[0]
            pp = self.place_ptr(n['inner'][0])
            return '%s.v[0]' % pp
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.incdec(n['inner'][0], n['opcode'])
            return self.place(n['inner'][0])
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('='):
            self.expr_stmt(n)
            return self.place(n['inner'][0])
        if k == 'MemberExpr':
            b = n['inner'][0]
            base = self.place(b, freeze)
            return '%s.%s' % (base, fname(n['name']))
        if k == 'ArraySubscriptExpr':
            return self.subscript(n, freeze)
        if k == 'CXXOperatorCallExpr':
            callee = skip(n['inner'][0])
            nm = callee['referencedDecl']['name']
            if nm == 'operator[]' and self.is_vec(n['inner'][1]):
                base = self.place(n['inner'][1], freeze)
                i = self.index(n['inner'][2], freeze)
                return '%s[%s]' % (base, i)
            f = self.mod.func_of_id(self.tu, callee['referencedDecl']['id'])
            if f is not None and n.get('valueCategory') == 'lvalue':
                return self.lv_call(f, n['inner'][1], n['inner'][2:], n)
            return self.rval_tmp(n)
        if k == 'CXXMemberCallExpr' and n.get('valueCategory') == 'lvalue':
            me = skip(n['inner'][0])
            f = self.mod.func_of_id(self.tu, me.get('referencedMemberDecl'))
            if f is None:
                self.err('member call ' + me.get('name', '?'), n)
            return self.lv_call(f, me['inner'][0], n['inner'][1:], n)
        if k == 'CallExpr' and n.get('valueCategory') == 'lvalue':
            self.err('reference-returning call', n)
        if k == 'ImplicitCastExpr' and n['castKind'] == 'LValueToRValue':
            return self.place(n['inner'][0], freeze)
        if n.get('valueCategory') in ('prvalue', 'xvalue'):
            return self.rval_tmp(n)
        self.err('lvalue ' + k, n)

    def this(self):
        if self.inl and self.inl[-1]['this'] is not None:
            return self.inl[-1]['this']
        return 'this' if self.isctor else '(*this)'

    def rval_tmp(self, n):
        v = self.rval(n)
        t = self.tmp()
        self.emit('let %s = %s;' % (t, v))
        return t

    def is_vec(self, n):
        q = strip_ref(qual(skip(n)))
        return bool(re.match(r'^(?:std::)?vector<', q))

    def index(self, n, freeze=False):
        t = self.ty.rust(qual(n))
        cv = self.const_val(n)
        if cv is not None:
            if cv < 0:
                self.err('negative constant index', n)
            return str(cv)
        e = self.rval(n)
        if freeze or 'tmp__' in e:
            pass
        if signed(t):
            r = 'idx_%s(%s)' % (t, e)
        elif t == 'u64':
            m = re.match(r'^cast_i32_u64\((.*)\)$', e)
            r = '(%s) as usize' % e if not m else '(%s) as usize' % e
        else:
            r = '(%s) as usize' % e
        if freeze or not re.match(r'^[\w()., ]+$', r):
            v = self.tmp()
            self.emit('let %s: usize = %s;' % (v, r))
            return v
        v = self.tmp()
        self.emit('let %s: usize = %s;' % (v, r))
        return v

    def subscript(self, n, freeze):
        b, i = n['inner']
        bb = skip(b)
        # global constant table
        x = bb
        while x['kind'] == 'ImplicitCastExpr':
            x = skip(x['inner'][0])
        if x['kind'] == 'DeclRefExpr':
            rd = x['referencedDecl']
            if (self.tu, rd['id']) not in self.env:
                return self.global_table(x, i)
            q = qual(x)
            if re.match(r'.*\[\d+\]$', q.strip()):
                return '%s[%s]' % (self.env[(self.tu, rd['id'])], self.index(i, freeze))
        p = self.place_ptr(b)
        ix = self.index(i, freeze)
        return '%s.v[%s]' % (p, ix)

    def global_int(self, rd, n):
        name = rd['name']
        for (t, vid), v in self.mod.idx.vars.items():
            if v.get('name') == name and v.get('inner'):
                old, self.tu = self.tu, t
                try:
                    cv = self.const_val(v['inner'][0])
                finally:
                    self.tu = old
                if cv is not None:
                    self.mod.check_readonly(name)
                    return wrapc(cv, INT[strip_ref(qual(v))])
        return None

    def global_table(self, x, i):
        d = self.mod.local_tables.get((self.tu, x['referencedDecl']['id'])) or self.mod.idx.byid.get((self.tu, x['referencedDecl']['id']))
        loc = (self.tu, x['referencedDecl']['id']) in self.mod.local_tables
        name = x['referencedDecl']['name']
        cand = [v for (t, vid), v in self.mod.idx.vars.items() if v.get('name') == name and any(c.get('kind') == 'InitListExpr' for c in v.get('inner', []))]
        if d is not None and any(c.get('kind') == 'InitListExpr' for c in d.get('inner', [])):
            v = d
        elif cand:
            v = cand[0]
        else:
            self.err('global %s without initializer' % name, x)
        if 'const' not in qual(v) and not loc:
            self.mod.check_readonly(name)
        m = re.match(r'^(?:const )?(.*?)\s*\[(\d+)\]$', qual(v).strip())
        if not m:
            self.err('global %s of type %s' % (name, qual(v)), x)
        t = self.ty.rust(m.group(1))
        cnt = int(m.group(2))
        il = [c for c in v['inner'] if c.get('kind') == 'InitListExpr'][0]
        vals = []
        for c in il.get('inner', []):
            if c.get('kind') == 'ImplicitValueInitExpr' or 'kind' not in c:
                vals.append(0)
                continue
            cvv = self.const_val(c)
            if cvv is None:
                self.err('table %s entry not constant' % name, x)
            vals.append(wrapc(cvv, t))
        if 'array_filler' in il:
            fill = il['array_filler']
            vals = [self.const_val(c) for c in fill if c.get('kind') != 'ImplicitValueInitExpr']
        while len(vals) < cnt:
            vals.append(0)
        if self.mod.tables.get(name, (t, vals)) != (t, vals):
            self.err('two tables called %s' % name, x)
        self.mod.tables[name] = (t, vals)
        ix = self.index(i)
        return 'tbl_%s(%s)' % (name, ix)

    # ---- calls -----------------------------------------------------------
    def lv_call(self, f, objn, args, n):
        """A call whose result is used as a place: inline trivial accessors."""
        r = self.inline_call(f, objn, args, n, want_place=True)
        return r

    def e_CXXOperatorCallExpr(self, n):
        callee = skip(n['inner'][0])
        nm = callee['referencedDecl']['name']
        args = n['inner'][1:]
        if nm == 'operator[]' and self.is_vec(args[0]):
            return self.place(n)
        if self.is_vec(args[0]) or 'vector' in strip_ref(qual(skip(args[0])))[:12]:
            return self.vec_op(nm, args, n)
        f = self.mod.func_of_id(self.tu, callee['referencedDecl']['id'])
        if f is None:
            self.err('operator %s on %s' % (nm, qual(args[0])), n)
        if f['cls'] is not None:
            return self.call(f, args[1:], args[0], n)
        return self.call(f, args, None, n)

    def vec_op(self, nm, args, n):
        if nm == 'operator=':
            pl = self.place(args[0])
            self.emit('%s = %s;' % (pl, self.vec_value(args[1])))
            return pl
        if nm in ('operator==', 'operator!='):
            r = 'vec_eq(&%s, &%s)' % (self.place(args[0]), self.place(args[1]))
            return r if nm == 'operator==' else '(!%s)' % r
        self.err('vector ' + nm, n)

    def vec_value(self, n):
        x = skip(n)
        while x['kind'] == 'ImplicitCastExpr' and x['castKind'] in ('NoOp', 'ConstructorConversion'):
            x = skip(x['inner'][0])
        if x['kind'] in ('CXXTemporaryObjectExpr', 'CXXConstructExpr'):
            return self.rval(x)
        if x.get('valueCategory') == 'lvalue':
            return 'vec_copy(&%s)' % self.place(x)
        return self.rval(x)

    def e_CXXMemberCallExpr(self, n):
        me = skip(n['inner'][0])
        if me['kind'] != 'MemberExpr':
            self.err('member call through ' + me['kind'], n)
        obj = me['inner'][0]
        args = n['inner'][1:]
        if self.is_vec(obj):
            pl = self.place(obj)
            nm = me['name']
            if nm == 'size':
                return '(%s.len() as u64)' % pl
            if nm == 'push_back':
                v = self.rval(args[0]) if self.ty.is_int(qual(args[0])) else self.copy_of(args[0])
                self.emit('%s.push(%s);' % (pl, v))
                return '()'
            if nm == 'pop_back':
                self.emit('vec_pop(&mut %s);' % pl)
                return '()'
            if nm == 'resize':
                v = self.rval(args[0])
                fill = self.rval(args[1]) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else '0'
                self.emit('vec_resize(&mut %s, %s, %s);' % (pl, v, fill))
                return '()'
            if nm == 'clear':
                self.emit('vec_resize(&mut %s, 0u64, 0);' % pl)
                return '()'
            if nm == 'empty':
                return '(%s.len() == 0)' % pl
            if nm == 'back':
                return '%s[%s.len() - 1]' % (pl, pl)
            if nm == 'front':
                return '%s[0]' % pl
            if nm == 'at':
                self.err('vector::at', n)
            self.err('vector method ' + nm, n)
        f = self.mod.func_of_id(self.tu, me.get('referencedMemberDecl'))
        if f is None:
            self.err('method %s not found' % me.get('name'), n)
        if f['static']:
            return self.call(f, args, None, n)
        return self.call(f, args, obj, n)

    def e_CallExpr(self, n):
        callee = skip(n['inner'][0])
        while callee['kind'] == 'ImplicitCastExpr':
            callee = skip(callee['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] == 'DeclRefExpr':
            f = self.mod.func_of_id(self.tu, callee['referencedDecl']['id'])
            if f is None:
                nm = callee['referencedDecl'].get('name')
                if nm in ('memset', 'memcpy'):
                    return self.mem_intrinsic(nm, args, n)
                self.err('call to external %s' % nm, n)
            return self.call(f, args, None, n)
        if callee['kind'] == 'MemberExpr':
            f = self.mod.func_of_id(self.tu, callee.get('referencedMemberDecl'))
            if f and f['static']:
                return self.call(f, args, None, n)
        self.err('call', n)

    def mem_arg(self, a):
        """Pointer argument of memset/memcpy: (buffer place, element type, is_local_array)"""
        x = skip(a)
        while x['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr') and x['castKind'] in ('BitCast', 'NoOp', 'LValueToRValue', 'ArrayToPointerDecay'):
            x = skip(x['inner'][0])
        q = qual(x).strip()
        m = re.match(r'^(?:const )?(.*)\[(\d+)\]$', q)
        if m:
            t = self.ty.rust(m.group(1).strip())
            return self.place(x, freeze=True), t, True
        if q.rstrip('const').rstrip().endswith('*'):
            t = self.ty.rust(q)
            if t.startswith('Buf<'):
                return self.place(x, freeze=True), t[4:-1], False
        self.err('memset/memcpy operand ' + q, a)

    def mem_intrinsic(self, nm, args, n):
        dst, t, arr = self.mem_arg(args[0])
        if t not in BITS:
            self.err(nm + ' of ' + t, n)
        if arr:
            self.err(nm + ' of a local array', n)
        size = self.rval(args[2])
        if nm == 'memset':
            if self.const_val(args[1]) != 0:
                self.err('memset to a nonzero byte', n)
            self.emit('buf_memset0_%s(&mut %s, %s);' % (t, dst, size))
        else:
            src, t2, arr2 = self.mem_arg(args[1])
            if t2 != t or arr2:
                self.err('memcpy between types', n)
            if overlaps(src, dst):
                # memcpy between overlapping objects is undefined: must be unreachable
                self.emit('unreached::<()>();')
                return '()'
            self.emit('buf_memcpy_%s(&mut %s, &%s, %s);' % (t, dst, src, size))
        return '()'

    def byte_view(self, a):
        """(unsigned char *)&x with x a local u64/u32: little-endian bytes; None when not of that form"""
        x = skip(a)
        if x['kind'] in ('CStyleCastExpr', 'CXXReinterpretCastExpr') and x.get('castKind') == 'BitCast':
            y = skip(x['inner'][0])
            if y['kind'] == 'UnaryOperator' and y['opcode'] == '&':
                z = skip(y['inner'][0])
                t = self.ty.rust(qual(z)) if self.ty.is_int(qual(z)) else None
                if t in ('u64', 'u32'):
                    v = self.tmp()
                    self.emit('let %s = bytes_of_%s(%s);' % (v, t, self.place(z)))
                    return v
        return None

    def writes_through(self, f, i):
        """Does f store through (or pass on) its pointer parameter i?"""
        pid = f['params'][i]['id']
        def mentions(n):
            if not isinstance(n, dict): return False
            if n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['id'] == pid: return True
            return any(mentions(c) for c in n.get('inner', []))
        def w(n, ok):
            if not isinstance(n, dict) or 'kind' not in n: return False
            k = n['kind']
            if k == 'DeclRefExpr' and n['referencedDecl']['id'] == pid:
                return not ok
            if k == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue':
                x = skip(n['inner'][0])
                if x['kind'] == 'ArraySubscriptExpr':
                    # a read p[i]
                    b = skip(x['inner'][0])
                    while b['kind'] == 'ImplicitCastExpr': b = skip(b['inner'][0])
                    if b['kind'] == 'DeclRefExpr' and b['referencedDecl']['id'] == pid:
                        return w(x['inner'][1], False)
            return any(w(c, False) for c in n.get('inner', []))
        return w(f['body'], False)

    def e_CXXConstructExpr(self, n):
        q = qual(n)
        if self.is_vec(n):
            return self.vec_ctor(n)
        cls = self.ty.find_class(q)
        if cls is None:
            self.err('construct ' + q, n)
        self.mod.need_struct(cls)
        args = [a for a in n.get('inner', [])]
        ct = n['ctorType']['qualType']
        # copy / move
        if len(args) == 1 and self.ty.find_class(qual(skip(args[0]))) == cls and '&' in ct:
            x = skip(args[0])
            if x['kind'] == 'ImplicitCastExpr' and x['castKind'] in ('NoOp',):
                x = skip(x['inner'][0])
            if x.get('valueCategory') == 'prvalue' or '&&' in ct:
                return self.rval(x)
            return self.copy_of(x)
        f = self.mod.mention_ctor(self.tu, cls, ct)
        return self.call(f, args, None, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n):
        self.err('initializer list', n)

    def copy_of(self, n):
        """Copy-construct from an lvalue of class type."""
        x = skip(n)
        cls = self.ty.find_class(qual(x))
        if x.get('valueCategory') == 'prvalue':
            return self.rval(x)
        f = self.mod.copy_ctor(cls)
        pl = self.place(x)
        if f is None:
            # implicit copy constructor: memberwise
            self.mod.need_struct(cls)
            return self.memberwise_copy(cls, pl)
        return self.callx(f, None, ['&' + pl if not pl.startswith('&') else pl], n)

    def memberwise_copy(self, cls, pl):
        parts = []
        for name, q, node in self.mod.idx.classes[cls]['fields']:
            t = self.ty.rust(q)
            fp = '%s.%s' % (pl, fname(name))
            if t in BITS or t == 'bool':
                v = fp
            elif t.startswith('Vec<'):
                v = 'vec_copy(&%s)' % fp
            elif t.startswith('Buf<'):
                self.err('implicit copy of an owning pointer')
            else:
                c = self.ty.find_class(q)
                f = self.mod.copy_ctor(c)
                v = self.callx(f, None, ['&' + fp], None) if f else self.memberwise_copy(c, fp)
            parts.append('%s: %s' % (fname(name), v))
        return '%s { %s }' % (self.ty.cls_rust(cls), ', '.join(parts))

    def vec_ctor(self, n):
        args = [a for a in n.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        t = self.ty.rust(qual(n))
        et = t[4:-1]
        if len(args) == 0:
            return 'Vec::new()'
        q0 = strip_ref(qual(skip(args[0])))
        if len(args) == 1 and re.match(r'^(std::)?vector<', q0):
            return self.vec_value(args[0])
        if et in BITS:
            c = self.rval(args[0])
            if len(args) == 1:
                return 'vec_new(%s, %s)' % (c, lit(0, et))
            x = args[1]
            v = self.rval(x) if self.ty.is_int(qual(x)) else self.err('vector fill', n)
            return 'vec_new(%s, %s)' % (c, v)
        self.err('vector of class elements', n)

    def e_CXXNewExpr(self, n):
        if not n.get('isArray'):
            self.err('scalar new', n)
        q = qual(n)
        el = strip_ref(q[:q.rfind('*')].strip())
        et = self.ty.rust(el)
        size = self.rval(n['inner'][0])
        st = self.ty.rust(qual(n['inner'][0]))
        cnt = size if st == 'u64' else self.intcast(size, st, 'u64')
        t = self.tmp()
        if et in BITS:
            self.emit('let %s: Buf<%s> = buf_new_%s(%s);' % (t, et, et, cnt))
            return t
        self.note_type(el)
        cls = self.ty.find_class(el)
        d = self.mod.default_ctor(cls)
        if (d is None or d['body'] is None) and all(self.ty.rust(q) in BITS for _, q, _ in self.mod.idx.classes[cls]['fields']):
            # plain struct of integers: new T[n] leaves the contents indeterminate
            rn = self.mod.need_struct(cls)
            self.mod.need_rawbuf = getattr(self.mod, 'need_rawbuf', {})
            self.mod.need_rawbuf[rn] = [(fname(a), self.ty.rust(q)) for a, q, _ in self.mod.idx.classes[cls]['fields']]
            self.emit('let %s: Buf<%s> = bufraw_%s(%s);' % (t, rn, rn, cnt))
            return t
        self.mod.need_bufnew = getattr(self.mod, 'need_bufnew', set())
        self.mod.need_bufnew.add(cls)
        nm = self.mod.request(d)
        if self.mod.may_throw(d):
            dc = self.mod.contract(d)
            if not dc or dc.get('throws') or dc.get('maythrow'):
                self.err('throwing default constructor in new[]', n)
        self.emit('let %s: Buf<%s> = bufnew_%s(%s);' % (t, et, et, cnt))
        return t

    def e_CXXDeleteExpr(self, n):
        p = self.place_ptr(n['inner'][0])
        self.emit('buf_delete(&mut %s);' % p)
        return '()'

    # ---- the call itself -------------------------------------------------
    def is_const_ref(self, q):
        q = q.strip()
        return q.endswith('&') and q.startswith('const ')

    def call(self, f, args, obj, n=None):
        """General call; returns Rust expression for the value."""
        mod = self.mod
        # defaulted / implicit assignment operator
        if f['node'].get('name') == 'operator=' and f['body'] is None and f['node'].get('isImplicit'):
            pl = self.place(obj)
            x = skip(args[0])
            if x.get('valueCategory') == 'lvalue':
                self.emit('%s = %s;' % (pl, self.memberwise_copy(f['cls'], self.place(x))))
            else:
                self.emit('%s = %s;' % (pl, self.rval(x)))
            return pl
        if f['body'] is None and not (f['kind'] == 'CXXConstructorDecl' and f['node'].get('isImplicit')) and not (mod.contract(f) is not None and mod.contract(f).flags.get('extern')):
            self.err('call to %s: no body in the loaded sources' % f['key'], n)
        if mod.contract(f) is None or mod.contract(f).flags.get('inline'):
            return self.inline_call(f, obj, args, n)
        isctor = f['kind'] == 'CXXConstructorDecl'
        rargs = []
        thisarg = None
        alias = []
        split = None
        tpl = None
        if obj is not None and not isctor and not f['static']:
            o = skip(obj)
            if o.get('valueCategory') == 'prvalue' and not (o['kind'] == 'CXXThisExpr'):
                tpl = self.rval_tmp_mut(o) if not f['const'] else self.rval_tmp(o)
            else:
                tpl = self.place(obj)
            if f['const']:
                thisarg = self.ref(tpl)
            elif '.v[' in tpl and self.const_root(tpl):
                # a non-const method on an object a const object points to: run it on a copy, and oblige it to leave the object as it was
                t = self.tmp()
                self.emit('let mut %s = same_object(&%s);' % (t, tpl))
                self.emit('let ghost %s__k = %s;' % (t, t))
                self.keep_const = (t, t + '__k')
                tpl = t
                thisarg = self.mref(t)
            else:
                thisarg = self.mref(tpl)
        mutplaces = []
        if thisarg is not None and not f['const']:
            mutplaces.append(tpl)
        plan = []
        for i, a in enumerate(args):
            p = f['params'][i]
            q = qual(p)
            t = self.ty.rust(q)
            if t == 'OpaqueStr':
                plan.append(('val', ('&' if q.strip().endswith('&') else '') + 'OpaqueStr {}'))
                continue
            if q.strip().endswith('&'):
                if self.is_const_ref(q):
                    if t in BITS or t == 'bool':
                        plan.append(('val', self.rval(a)))
                    else:
                        x = skip(a)
                        if x.get('valueCategory') == 'lvalue':
                            pl = self.place(x)
                        else:
                            pl = self.rval_tmp(x)
                        plan.append(('ref', pl, i))
                else:
                    pl = self.place(a)
                    mutplaces.append(pl)
                    plan.append(('mut', pl, i))
            elif t in BITS or t == 'bool':
                plan.append(('val', self.rval(a)))
            elif t.startswith('Buf<'):
                bv = self.byte_view(a)
                if bv is None or self.writes_through(f, i):
                    self.err('pointer argument %d in call to %s' % (i, f['key']), n)
                plan.append(('val', bv))
            else:
                plan.append(('val', self.copy_of(a) if skip(a).get('valueCategory') == 'lvalue' else self.rval(a)))
        if len(args) < len(f['params']):
            self.err('default arguments in call to %s' % f['key'], n)
        for pl in plan:
            if pl[0] == 'val':
                v = pl[1]
                roots = [re.match(r'[(*&]*(\w+)', m).group(1) for m in mutplaces]
                if not re.fullmatch(r'\w+', v) and any(re.search(r'\b%s\b' % r, v) for r in roots):
                    # the argument reads an object the call borrows mutably: evaluate it first
                    t = self.tmp()
                    self.emit('let %s = %s;' % (t, v))
                    v = t
                rargs.append(v)
            elif pl[0] == 'ref':
                ov = [m for m in mutplaces if overlaps(m, pl[1])]
                if ov:
                    if len(ov) == 1 and ov[0] == tpl and pl[1] == tpl:
                        alias.append(pl[2])      # argument is *this: alias-specialised copy
                        continue
                    sp = self.same_array_cells(tpl, pl[1]) if len(ov) == 1 and ov[0] == tpl and split is None else None
                    if sp:
                        split = (len(rargs), pl[1], pl[2], sp)
                        rargs.append(None)
                        continue
                    self.err('aliased argument %s in call to %s' % (pl[1], f['key']), n)
                rargs.append(self.ref(pl[1]))
            else:
                sp = self.same_array_cells(tpl, pl[1]) if tpl is not None and sum(1 for m in mutplaces if overlaps(m, pl[1])) == 2 else None
                if sp:
                    # two cells of one array, both modified: obliged to be different cells
                    t = self.tmp()
                    self.emit('assert(%s != %s);' % sp)
                    self.emit('let mut %s = same_object(&%s);' % (t, pl[1]))
                    self.cell_back = '%s = %s;' % (pl[1], t)
                    rargs.append(self.mref(t))
                    continue
                if sum(1 for m in mutplaces if overlaps(m, pl[1])) > 1:
                    self.err('two mutable references to %s in call to %s' % (pl[1], f['key']), n)
                rargs.append(self.mref(pl[1]))
        if split:
            # two cells of one array: either the same cell (alias-specialised copy) or disjoint ones
            pos, cell, idx, (i1, i2) = split
            rq = f['node']['type']['qualType']
            if alias or not (rq.startswith('void ') or rq[:rq.find('(')].strip().endswith('&')):
                self.err('aliased argument %s in call to %s' % (cell, f['key']), n)
            cls = f['cls']
            cc = self.mod.copy_ctor(cls)
            self.emit('if %s == %s {' % (i1, i2))
            self.callx(f, thisarg, rargs[:pos] + rargs[pos + 1:], n, [idx])
            self.emit('} else {')
            t = self.tmp()
            self.emit('let %s = %s;' % (t, self.callx(cc, None, ['&' + cell], None) if cc else self.memberwise_copy(cls, cell)))
            r = self.callx(f, thisarg, rargs[:pos] + ['&' + t] + rargs[pos + 1:], n)
            self.emit('}')
            return r
        return self.callx(f, thisarg, rargs, n, alias)

    def same_array_cells(self, a, b):
        """X.v[i] and X.v[j] (whole cells): (i, j)."""
        ma, mb = re.fullmatch(r'(.*)\[(\w+)\]', a), re.fullmatch(r'(.*)\[(\w+)\]', b)
        if ma and mb and ma.group(1) == mb.group(1):
            return (ma.group(2), mb.group(2))
        return None

    def ref(self, pl):
        if pl in self.refparams():
            return pl if True else '&' + pl
        return '&' + pl

    def refparams(self):
        return ()

    def mref(self, pl):
        return '&mut ' + pl

    def rval_tmp_mut(self, n):
        v = self.rval(n)
        t = self.tmp()
        self.emit('let mut %s = %s;' % (t, v))
        return t

    def const_root(self, pl):
        m = re.match(r'^\(?\*?\(?\*?(\w+)', pl)
        if not m:
            return False
        r = m.group(1)
        if r == 'this':
            return bool(self.f['const'])
        return any(fname(p.get('name') or '') == r and qual(p).strip().endswith('&') and self.is_const_ref(qual(p)) for p in self.f['params'])

    def callx(self, f, thisarg, rargs, n, alias=()):
        mod = self.mod
        keep = getattr(self, 'keep_const', None)
        self.keep_const = None
        if keep and thisarg != '&mut ' + keep[0]:
            self.err('internal: shallow-const call', n)
        if mod.contract(f) is None or (f['kind'] == 'CXXConstructorDecl' and mod.contract(f).flags.get('inline')):
            if f['kind'] == 'CXXConstructorDecl' and len(f['params']) <= 1:
                # copy constructor without contract
                return self.inline_ctor_text(f, rargs, n)
        name = mod.request(f, alias)
        all_ = ([thisarg] if thisarg is not None else []) + rargs
        short = f['node'].get('name', '?')
        k = self.callcount.get(short, 0)
        self.callcount[short] = k + 1
        e = '%s(%s)' % (name, ', '.join(all_))
        if mod.may_throw(f):
            if not self.fthrows:
                self.err('internal: throw analysis')
            e += '?'
        if keep and e.endswith('?'):
            self.pending_keep = (self.tmp(), e[:-1])
        c = self.c
        hb = c.calls.get((short, k, 'beforecall')) if c else None
        ha = c.calls.get((short, k, 'aftercall')) if c else None
        if hb:
            self.hint(hb, 'before call %s %d' % (short, k))
        if self.statics and e.endswith('?'):
            self.emit_static_checks()
        rq = f['node']['type']['qualType']
        void = rq.startswith('void ') or rq[:rq.find('(')].strip().endswith('&')
        if f['kind'] == 'CXXConstructorDecl':
            void = False
        back = getattr(self, 'cell_back', None)
        self.cell_back = None
        if back:
            r = self.tmp()
            self.emit('let %s = %s;' % (r, e.rstrip('?')))
            self.emit(back)
            e = r + ('?' if e.endswith('?') else '')
        if keep:
            if e.endswith('?'):
                r, ee = self.pending_keep
                self.emit('let %s = %s;' % (r, ee))
                e = r + '?'
            else:
                r = self.tmp()
                self.emit('let %s = %s;' % (r, e))
                e = r
            self.emit('assert(%s == %s);' % keep)
        if void:
            self.emit(e + ';')
            if ha: self.hint(ha, 'after call %s %d' % (short, k))
            if thisarg is not None and rq[:rq.find('(')].strip().endswith('&'):
                return re.sub(r'^&(mut )?', '', thisarg)  # place
            return '()'
        v = self.tmp()
        self.emit('let %s = %s;' % (v, e))
        if ha:
            self.hint(ha.replace('$ret', v), 'after call %s %d' % (short, k))
        return v

    # ---- inlining --------------------------------------------------------
    def inline_ctor_text(self, f, rargs, n):
        self.err('constructor %s has no contract' % f['key'], n)

    def inline_call(self, f, obj, args, n, want_place=False):
        mod = self.mod
        if f['body'] is None:
            self.err('inline %s: no body' % f['key'], n)
        if len(self.inl) > 6 or any(x['m'] == f['m'] for x in self.inl) or f['m'] == self.f['m']:
            self.err('recursive inlining of ' + f['key'], n)
        mod.inlined.add(f['key'])
        self.ninl = getattr(self, 'ninl', 0) + 1
        num = self.ninl
        isctor = f['kind'] == 'CXXConstructorDecl'
        thispl = None
        sv_tu, sv_env = self.tu, self.env
        if obj is not None and not isctor and not f['static']:
            o = skip(obj)
            if o.get('valueCategory') == 'prvalue' and o['kind'] != 'CXXThisExpr':
                thispl = self.rval_tmp_mut(o)
            else:
                thispl = self.place(obj, freeze=True)
        newenv = dict(self.env)
        for i, p in enumerate(f['params']):
            if i >= len(args):
                self.err('default argument in inlined call', n)
            a = args[i]
            q = qual(p)
            t = self.ty.rust(q)
            self.note_type(q)
            nm = fname(p.get('name') or 'unnamed') + '__i%d' % num
            if q.strip().endswith('&'):
                x = skip(a)
                if x.get('valueCategory') == 'lvalue':
                    pl = self.place(x, freeze=True)
                elif self.is_const_ref(q) or True:
                    pl = self.rval_tmp_mut(x)
                newenv[(f['tu'], p['id'])] = pl
            elif t.startswith('Buf<'):
                # a pointer passed down: the same object, reached through the caller's place
                x = skip(a)
                while x['kind'] == 'ImplicitCastExpr' and x['castKind'] in ('LValueToRValue', 'NoOp'):
                    x = skip(x['inner'][0])
                if x['kind'] not in ('DeclRefExpr', 'MemberExpr') or i in self.mutated_ptrs(f):
                    self.err('pointer argument in inlined call', n)
                newenv[(f['tu'], p['id'])] = self.place(x, freeze=True)
            else:
                if t in BITS or t == 'bool':
                    v = self.rval(a)
                else:
                    v = self.copy_of(a) if skip(a).get('valueCategory') == 'lvalue' else self.rval(a)
                self.emit('let mut %s: %s = %s;' % (nm, t, v))
                newenv[(f['tu'], p['id'])] = nm
        rq = f['node']['type']['qualType']
        rq = rq[:rq.find('(')].strip()
        fr = dict(n=num, this=thispl, m=f['m'])
        self.inl.append(fr)
        self.env = newenv
        self.tu = f['tu']
        try:
            if isctor:
                rn = mod.need_struct(f['cls'])
                # build in a named temp
                res = 'obj__i%d' % num
                fr['this'] = res
                sv = self.emit_ctor_init_named(f, rn, res)
                self.inline_block(f['body'].get('inner', []), None, n)
                return res
            retref = rq.endswith('&')
            if retref:
                return self.inline_tail_place(f, n, want_place)
            if rq == 'void':
                self.inline_block(f['body'].get('inner', []), None, n)
                return '()'
            t = self.ty.rust(rq)
            self.note_type(rq)
            res = 'res__i%d' % num
            # value: straight-line prefix then single return?  general: assign on each tail return
            body = f['body'].get('inner', [])
            if body and body[-1].get('kind') == 'ReturnStmt' and not any(self.contains_return(x) for x in body[:-1]):
                for s in body[:-1]:
                    self.stmt(s)
                e = body[-1]['inner'][0]
                v = self.ret_value_inl(e)
                self.emit('let mut %s: %s = %s;' % (res, t, v))
                return res
            self.emit('let mut %s: %s;' % (res, t))
            self.inline_block(body, res, n)
            return res
        finally:
            self.inl.pop()
            self.env = sv_env
            self.tu = sv_tu

    def mutated_ptrs(self, f):
        """indices of parameters that are themselves reassigned (not stored through)"""
        ids = {p['id']: i for i, p in enumerate(f['params'])}
        out = set()
        def w(n):
            if not isinstance(n, dict) or 'kind' not in n: return
            if (n['kind'] in ('BinaryOperator',) and n.get('opcode') == '=') or n['kind'] == 'CompoundAssignOperator' or (n['kind'] == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&')):
                x = skip(n['inner'][0])
                if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] in ids: out.add(ids[x['referencedDecl']['id']])
            for c in n.get('inner', []): w(c)
        w(f['body'])
        return out

    def ret_value_inl(self, e):
        return self.rval(e)

    def emit_ctor_init_named(self, f, rn, res):
        sv = self.out
        self.out = []
        self.emit_ctor_init(f, rn)
        lines = self.out
        self.out = sv
        lines[-1] = lines[-1].replace('let mut this =', 'let mut %s =' % res)
        self.out += lines

    def contains_return(self, n):
        if not isinstance(n, dict) or 'kind' not in n:
            return False
        if n['kind'] == 'ReturnStmt':
            return True
        return any(self.contains_return(c) for c in n.get('inner', []))

    def inline_block(self, ss, res, n):
        """Statements of an inlined body; returns allowed only in tail position (if/else chains)."""
        ss = [s for s in ss if isinstance(s, dict) and 'kind' in s and s['kind'] != 'NullStmt']
        for i, s in enumerate(ss):
            rest = ss[i + 1:]
            if s['kind'] == 'ReturnStmt':
                if res is not None:
                    v = self.ret_value_inl(s['inner'][0])
                    self.emit('%s = %s;' % (res, v))
                return
            if not self.contains_return(s):
                self.stmt(s)
                if self.ends_with_return(s):     # throw
                    return
                continue
            if s['kind'] == 'CompoundStmt':
                return self.inline_block(s.get('inner', []) + rest, res, n)
            if s['kind'] == 'IfStmt':
                ins = s['inner']
                if s.get('hasInit') or s.get('hasVar'):
                    self.err('if with init', s)
                c = self.cond(ins[0])
                env0 = dict(self.env)
                lp0 = self.loopn
                self.emit('if %s {' % c)
                self.ind += 1
                self.inline_block([ins[1]] + rest, res, n)
                self.ind -= 1
                self.emit('} else {')
                self.ind += 1
                self.env = env0
                tail = ([ins[2]] if s.get('hasElse') else []) + rest
                self.inline_block(tail, res, n)
                self.ind -= 1
                self.emit('}')
                return
            self.err('return inside a loop/switch of an inlined function', n)

    def inline_tail_place(self, f, n, want_place):
        body = [s for s in f['body'].get('inner', []) if s.get('kind') != 'NullStmt']
        if not body or body[-1]['kind'] != 'ReturnStmt' or any(self.contains_return(x) for x in body[:-1]):
            self.err('reference-returning function %s not of accessor form' % f['key'], n)
        for s in body[:-1]:
            self.stmt(s)
        e = skip(body[-1]['inner'][0])
        if e['kind'] in ('BinaryOperator', 'CXXOperatorCallExpr') and e.get('valueCategory') == 'lvalue' and e['kind'] == 'BinaryOperator':
            self.expr_stmt(e)
            return self.place(e['inner'][0])
        return self.place(e, freeze=True)

    # ---- expression statements ------------------------------------------
    def expr_stmt(self, n):
        n = skip(n)
        k = n['kind']
        if k == 'BinaryOperator' and n['opcode'] == '=':
            l, r = n['inner']
            t = qual(l)
            if t.rstrip().endswith('*'):
                return self.ptr_assign(n)
            v = self.rval(r)
            pl = self.place(l)
            self.emit('%s = %s;' % (pl, v))
            return
        if k == 'BinaryOperator' and n['opcode'] == ',':
            self.expr_stmt(n['inner'][0])
            self.expr_stmt(n['inner'][1])
            return
        if k == 'CompoundAssignOperator':
            return self.compound(n)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return self.incdec(n['inner'][0], n['opcode'])
        if k in ('CStyleCastExpr', 'ImplicitCastExpr') and n['castKind'] == 'ToVoid':
            x = skip(n['inner'][0])
            if x['kind'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                return self.expr_stmt(x)
            if x['kind'] in ('DeclRefExpr', 'IntegerLiteral', 'CXXThisExpr', 'MemberExpr'):
                return
            v = self.rval(x)
            self.emit('let _ = %s;' % v)
            return
        if k == 'ConditionalOperator':
            c, a, b = n['inner']
            cc = self.cond(c)
            self.emit('if %s {' % cc)
            self.ind += 1
            self.expr_stmt(a)
            self.ind -= 1
            self.emit('} else {')
            self.ind += 1
            self.expr_stmt(b)
            self.ind -= 1
            self.emit('}')
            return
        if k in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'DeclRefExpr'):
            return
        if k == 'CXXDeleteExpr':
            self.e_CXXDeleteExpr(n)
            return
        v = self.rval(n)
        if v not in ('()',) and not re.match(r'^[\w.\[\]()*& ]+$', v):
            self.emit('let _ = %s;' % v)

    def ptr_assign(self, n):
        l, r = n['inner']
        pl = self.place(l)
        x = skip(r)
        while x['kind'] == 'ImplicitCastExpr' and x['castKind'] in ('NoOp', 'BitCast'):
            x = skip(x['inner'][0])
        if x['kind'] == 'ImplicitCastExpr' and x['castKind'] == 'NullToPointer' or x['kind'] == 'CXXNullPtrLiteralExpr':
            self.emit('%s = buf_null();' % pl)
            return
        if x['kind'] == 'CXXNewExpr':
            v = self.rval(x)
            self.emit('%s = %s;' % (pl, v))
            return
        if x['kind'] == 'ImplicitCastExpr' and x['castKind'] == 'LValueToRValue':
            y = skip(x['inner'][0])
            if y['kind'] == 'DeclRefExpr' and self.env.get((self.tu, y['referencedDecl']['id'])) in [a for a, b in self.locals]:
                # ownership transfer from a local pointer; Rust rejects any later use
                self.emit('%s = %s;' % (pl, self.env[(self.tu, y['referencedDecl']['id'])]))
                return
            # swap-like transfers: take the buffer, the source becomes wild
            src = self.place(y)
            self.emit('%s = buf_take(&mut %s);' % (pl, src))
            return
        self.err('pointer assignment', n)

    def compound(self, n):
        l, r = n['inner']
        op = n['opcode'][:-1]
        lt = self.ty.rust(qual(l))
        ct = INT.get(strip_ref(n['computeLHSType'].get('desugaredQualType') or n['computeLHSType']['qualType']))
        rt = INT.get(strip_ref(n['computeResultType'].get('desugaredQualType') or n['computeResultType']['qualType']))
        if ct is None:
            self.err('compound assignment type', n)
        b = self.rval(r)
        bt = self.ty.rust(qual(r))
        pl = self.place(l)
        a = self.intcast(pl, lt, ct)
        v = self.arith(op, a, b, ct, bt, self.const_val(r) if op in ('<<', '>>', '&') else None)
        self.emit('%s = %s;' % (pl, self.intcast(v, rt, lt)))


def overlaps(a, b):
    """Could the two place expressions denote overlapping objects?"""
    def strip(x):
        return re.sub(r'^\(\*(\w+)\)', r'\1', x)
    a, b = strip(a), strip(b)
    ra = re.split(r'[.\[]', a)[0]
    rb = re.split(r'[.\[]', b)[0]
    if ra != rb:
        return False
    pa = re.findall(r'\.\w+|\[[^\]]*\]', a)
    pb = re.findall(r'\.\w+|\[[^\]]*\]', b)
    for x, y in zip(pa, pb):
        if x.startswith('.') and y.startswith('.') and x != y:
            return False
    return True


def wrapc(v, t):
    if t == 'bool':
        return 1 if v else 0
    b = BITS[t]
    v &= (1 << b) - 1
    if signed(t) and v >> (b - 1):
        v -= 1 << b
    return v


def lit(v, t):
    if t == 'bool':
        return 'true' if v else 'false'
    if v < 0:
        if v == -(1 << (BITS[t] - 1)):
            return '%s::MIN' % t
        return '(-%d%s)' % (-v, t)
    return '%d%s' % (v, t)


def split_commas(t):
    """Split a clause list on top-level commas."""
    out, cur, d, i = [], '', 0, 0
    n = len(t)
    inbar = False
    while i < n:
        ch = t[i]
        if ch in '([{':
            d += 1
        elif ch in ')]}':
            d -= 1
        if ch == '|' and d == 0:
            # quantifier binder  forall|x: T, y: U|
            if not inbar and re.search(r'(forall|exists|choose)\s*$', cur):
                inbar = True
            elif inbar:
                inbar = False
        if ch == '/' and t[i:i + 2] == '//':
            j = t.find('\n', i)
            i = n if j < 0 else j
            continue
        if ch == ',' and d == 0 and not inbar:
            if cur.strip():
                out.append(cur.strip())
            cur = ''
        else:
            cur += ch
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out
