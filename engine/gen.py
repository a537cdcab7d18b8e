"""Builds one Verus crate from /repo's current sources + /verif/specs, runs Verus,
and maps every failure back to the C++ function it belongs to."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from clangast import Index, ExtractError, dump_tu
from translate import Mod, parse_specs, Types, BITS, split_commas
import mkprelude

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

def load_index(tus):
    idx = Index()
    paths = []
    for t in tus:
        p = t if os.path.isabs(t) else (os.path.join(VERIF, t[2:]) if t.startswith('V/') else os.path.join(REPO, t))
        if not os.path.exists(p):
            raise ExtractError('source file %s is gone' % t)
        paths.append(p)
    with ThreadPoolExecutor(8) as ex:
        docs = list(ex.map(lambda p: dump_tu(p, REPO), paths))
    for p, d in zip(paths, docs):
        idx.add_tu(p, REPO, d)
    return idx

def table_text(name, t, vals):
    def tree(lo, hi):
        if hi - lo == 1:
            v = vals[lo]
            return '%d' % v
        mid = (lo + hi) // 2
        return 'if i < %d { %s } else { %s }' % (mid, tree(lo, mid), tree(mid, hi))
    def etree(lo, hi):
        if hi - lo == 1:
            return '%d%s' % (vals[lo], t)
        mid = (lo + hi) // 2
        return 'if i < %d { %s } else { %s }' % (mid, etree(lo, mid), etree(mid, hi))
    n = len(vals)
    big = n > 300
    s = '// table %s: %d entries, extracted from the initializer in /repo\n' % (name, n)
    s += 'pub open spec fn tbls_%s_len() -> int { %d }\n' % (name, n)
    if big:
        K = (n + 63) // 64
        for c in range(K):
            s += '#[verifier::opaque]\npub open spec fn tbls_%s_%d(i: int) -> int { %s }\n' % (name, c, tree(c * 64, min(n, c * 64 + 64)))
        def ctree(lo, hi):
            if hi - lo == 1:
                return 'tbls_%s_%d(i)' % (name, lo)
            mid = (lo + hi) // 2
            return 'if i < %d { %s } else { %s }' % (mid * 64, ctree(lo, mid), ctree(mid, hi))
        s += '#[verifier::opaque]\npub open spec fn tbls_%s(i: int) -> int { %s }\n' % (name, ctree(0, K))
    else:
        s += 'pub open spec fn tbls_%s(i: int) -> int { %s }\n' % (name, tree(0, n))
    if big:
        s += '#[verifier::external_body]\npub fn tbl_%s(i: usize) -> (r: %s) requires i < %d ensures r as int == tbls_%s(i as int) { [%s][i] }\n' % (name, t, n, name, ', '.join('%d' % v for v in vals))
    else:
        s += 'pub fn tbl_%s(i: usize) -> (r: %s) requires i < %d ensures r as int == tbls_%s(i as int) { %s }\n' % (name, t, n, name, etree(0, n))
    return s

def bufnew_text(mod, cls):
    rn = mod.need_struct(cls)
    d = mod.default_ctor(cls)
    c = mod.contract(d)
    ens = c.get('ensures').strip().rstrip(',') if c else ''
    parts = split_commas(ens)
    post = ' && '.join('(%s)' % p for p in parts) or 'true'
    nm = mod.fn_name(d)
    return '''pub open spec fn dflt_%(rn)s(ret: %(rn)s) -> bool { %(post)s }
pub fn bufnew_%(rn)s(n: u64) -> (r: Buf<%(rn)s>)
    ensures r.st is Live, r.v@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] dflt_%(rn)s(r.v@[i]),
{
    let mut v: Vec<%(rn)s> = Vec::new();
    let mut i: u64 = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] dflt_%(rn)s(v@[j]),
        decreases n - i
    {
        let ghost v0 = v@;
        let x = %(call)s;
        v.push(x);
        i = i + 1;
        proof { assert forall|j: int| 0 <= j < i implies #[trigger] dflt_%(rn)s(v@[j]) by { if j < i - 1 { assert(v@[j] == v0[j]); assert(dflt_%(rn)s(v0[j])); } } }
    }
    Buf { v, st: BufState::Live }
}
''' % dict(rn=rn, post=post, call='match %s() { Ok(y) => y, Err(_) => { vstd::pervasive::unreached() } }' % nm if mod.may_throw(d) else '%s()' % nm)

class Unit:
    """One crate: cfg has tus, specs, libs, roots."""
    def __init__(self, cfg, baseline=None):
        self.cfg = cfg
        self.idx = load_index(cfg['tus'])
        self.contracts = {}
        for s in cfg['specs']:
            p = os.path.join(VERIF, 'specs', s)
            for k, v in parse_specs(open(p).read(), s).items():
                self.contracts[k] = v
        self.mod = Mod(self.idx, self.contracts)
        self.mod.baseline_locals = baseline or {}
        self.mod.modular = list(cfg.get('modular', {}).items())
        self.mod.assumed_keys = []
        self.mod.root_keys = {'%s' % r.split('@')[0] for r in cfg['roots']}

    def generate(self):
        mod = self.mod
        mod.run(self.cfg['roots'])
        # bufnew helpers may request more ctors
        bufs = ''
        done = set()
        while True:
            todo = getattr(mod, 'need_bufnew', set()) - done
            if not todo:
                break
            for c in sorted(todo):
                bufs += bufnew_text(mod, c)
                done.add(c)
            mod.run([])
        for rn in sorted(getattr(mod, 'need_rawbuf', {})):
            bufs += '// new %s[n]: n cells of arbitrary contents\n#[verifier::external_body]\npub fn bufraw_%s(n: u64) -> (r: Buf<%s>) ensures r.st is Live, r.v@.len() == n { unimplemented!() }\n' % (rn, rn, rn)
        text = 'use vstd::prelude::*;\n#[allow(unused_imports)] use vstd::arithmetic::div_mod::*;\n#[allow(unused_imports)] use vstd::arithmetic::mul::*;\nverus! {\nglobal size_of usize == 8;\n'
        text += mkprelude.gen()
        text += ''.join(mod.opfns[k] for k in sorted(mod.opfns))
        for rn, s in mod.structs.items():
            text += s or ''
        for nm, (t, v) in mod.tables.items():
            text += table_text(nm, t, v)
        for l in self.cfg.get('libs', []):
            lt = open(os.path.join(VERIF, 'specs', l)).read()
            if l in self.cfg.get('libs_assumed', {}):
                # lemmas proved by another check: assumed here, statement only
                lt = re.sub(r'(?m)^pub proof fn ', '#[verifier::external_body] pub proof fn ', lt)
            text += '\n// ======== lib %s\n' % l + lt
        text += '\n// ======== contracts + extracted functions\n' + bufs
        self.spans = []
        for k in mod.order:
            a = text.count('\n') + 1
            text += mod.emitted[k]
            self.spans.append((a, text.count('\n') + 1, k))
        text += '\nfn main() {}\n}\n'
        self.text = text
        return text

    def fn_at(self, line):
        for a, b, k in self.spans:
            if a <= line <= b:
                return k
        return None

def run_verus(path, rlimit=30, threads=8, timeout=800, extra=()):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--rlimit', str(rlimit), '--num-threads', str(threads), '--multiple-errors', '3', '--no-report-long-running'] + list(extra)
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(timeout=True, ok=False, verified=0, errors=0, stderr='timeout', wall=time.time() - t, cmd=' '.join(cmd), json={})
    try:
        j = json.loads(p.stdout)
    except Exception:
        j = {}
    vr = j.get('verification-results', {})
    return dict(ok=bool(vr.get('success')) and vr.get('errors') == 0, verified=vr.get('verified', 0), errors=vr.get('errors', 0),
                stderr=p.stderr, wall=time.time() - t, cmd=' '.join(cmd), json=j, rc=p.returncode, timeout=False,
                vir_error=vr.get('encountered-vir-error'), enc_err=vr.get('encountered-error'))

ERR = re.compile(r'^(error|warning|note)(?:\[\w+\])?: (.*)$')
LOC = re.compile(r'^\s*--> (.*?):(\d+):(\d+)')

def parse_errors(stderr):
    out = []
    cur = None
    for l in stderr.split('\n'):
        m = ERR.match(l)
        if m:
            cur = dict(kind=m.group(1), msg=m.group(2), lines=[], text=[l]) if m.group(1) == 'error' else None
            if cur is not None:
                out.append(cur)
            continue
        if cur is not None:
            cur['text'].append(l)
            m = LOC.match(l)
            if m:
                cur['lines'].append(int(m.group(2)))
            m = re.match(r'^\s*(\d+)\s+\|', l)
            if m:
                cur['lines'].append(int(m.group(1)))
    return [e for e in out if not e['msg'].startswith('aborting')]

if __name__ == '__main__':
    import props
    cfg = dict(props.UNITS[sys.argv[1]])
    if os.environ.get('ONLY'): cfg['roots'] = [r for r in cfg['roots'] if re.search(os.environ['ONLY'], r)]
    u = Unit(cfg)
    outp = sys.argv[2] if len(sys.argv) > 2 else '/tmp/w/%s.rs' % sys.argv[1]
    txt = u.generate()
    open(outp, 'w').write(txt)
    extra = sys.argv[3:]
    r = run_verus(outp, rlimit=float(os.environ.get("RL", "8")), timeout=int(os.environ.get("TMO", "120")), extra=extra)
    print(r['verified'], 'verified', r['errors'], 'errors', '%.1fs' % r['wall'])
    if not r['ok']:
        print(r['stderr'][-9000:])
        for e in parse_errors(r['stderr']):
            for l in e['lines'][:1]:
                k = u.fn_at(l)
                print('FAIL', e['msg'], l, u.mod.info[k]['key'] if k else '(lib)')
    else:
        try:
            ts = []
            for m in r['json']['times-ms']['smt']['smt-run-module-times']:
                for fb in m.get('function-breakdown', []):
                    ts.append((fb['time'], fb['function']))
            print(sorted(ts)[-8:])
        except Exception as ex:
            print(ex)
