"""check.py ID [--tier quick|thorough]: decides one property on /repo's current working tree.

1. extracts the functions of the property's call closure from /repo (clang AST -> Verus) and has
   Verus discharge every obligation generated from their contracts;
2. runs the conformance harness: the same real code, compiled with ASan+UBSan, against oracles.
Outcome: see DESIGN.md ("Decision rule")."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, props
from clangast import ExtractError

VERIF, REPO = gen.VERIF, gen.REPO
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
CXXFLAGS = ['-std=c++20', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
            '-fno-omit-frame-pointer', '-w', '-I' + REPO, '-I' + os.path.join(VERIF, 'harness')]

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)

class Harness:
    def __init__(self, pid, cfg, scratch):
        self.pid, self.cfg, self.dir = pid, cfg, scratch
        self.state, self.detail = 'none', ''
        self.summary = {}

    def build(self, pool):
        srcs = [os.path.join(VERIF, 'harness', self.pid + '.cpp')] if not self.cfg.get('src') else [os.path.join(VERIF, 'harness', self.cfg['src'])]
        want = []
        for s in self.cfg['sources']:
            hits = sorted(glob.glob(os.path.join(REPO, s)))
            want += [h for h in hits if h not in want]
        srcs += [s for s in want if s not in srcs]
        objs = []
        def one(i, s):
            o = os.path.join(self.dir, 'o%d.o' % i)
            p = subprocess.run([CXX] + CXXFLAGS + ['-c', s, '-o', o], capture_output=True, text=True)
            return (s, o, p.returncode, p.stderr)
        self.exe = os.path.join(self.dir, 'h')
        res = list(pool.map(lambda a: one(*a), list(enumerate(srcs))))
        for s, o, rc, err in res:
            if rc:
                self.state, self.detail = 'nobuild', '%s: %s' % (s, err[-2000:])
                return False
            objs.append(o)
        link = lambda more: subprocess.run([CXX] + CXXFLAGS + objs + more + ['-o', self.exe], capture_output=True, text=True)
        p = link([])
        if p.returncode:
            # the sources now need other parts of the library: offer all of it as an archive
            rest = [x for x in sorted(glob.glob(os.path.join(REPO, 'spffl', '*', '*.cpp'))) if x not in srcs]
            more = [o for _, o, rc, _ in pool.map(lambda a: one(*a), [(1000 + i, x) for i, x in enumerate(rest)]) if rc == 0]
            ar = os.path.join(self.dir, 'rest.a')
            subprocess.run(['ar', 'rcs', ar] + more, capture_output=True)
            p = link([ar])
        if p.returncode:
            self.state, self.detail = 'nobuild', p.stderr[-3000:]
            return False
        return True

    def run(self, seed, budget, tier):
        od = os.path.join(self.dir, 'run')
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=0',
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')
        limit = budget * 3 + 240
        self.cmd = [self.exe, od, str(seed), str(budget), tier]
        try:
            p = subprocess.run(self.cmd, capture_output=True, text=True, errors='replace', timeout=limit, env=env, cwd=od)
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, err = 'slow', 'harness exceeded %ds' % limit
        def rd(n):
            try:
                return open(os.path.join(od, n), errors='replace').read().split('\0')[0]
            except OSError:
                return ''
        if rc == 0:
            self.state = 'pass'
            try:
                self.summary = json.loads(rd('summary.json'))
            except Exception as ex:
                self.summary = {'unreadable': str(ex)}
        elif rc == 'slow':
            self.state, self.detail = 'slow', err
        else:
            self.state = 'fail'
            self.detail = 'exit status %s\ninput (current case): %s\n%s\n---- stderr\n%s' % (rc, rd('case.txt'), rd('failure.txt'), err[-6000:])
            if rc == 2 and not rd('case.txt'):
                self.state = 'nobuild'
        return self.state

T0 = time.time()
DEADLINE = 640   # seconds; proof retries end here so that a check answers well within its 900 s

class Prover:
    def __init__(self, pid, cfg, scratch):
        self.pid, self.cfg, self.dir = pid, cfg, scratch
        self.state, self.detail, self.failed = 'none', '', []
        self.res = {}
        self.smoke = None
        self.unit = None

    def baseline(self):
        p = os.path.join(VERIF, 'engine', 'baseline_locals.json')
        return json.load(open(p)) if os.path.exists(p) else {}

    def run(self, tier):
        try:
            self._run(tier)
        except ExtractError as e:
            self.state, self.detail = 'extract', 'extraction: %s' % e
        except Exception as e:
            import traceback
            self.state, self.detail = 'extract', 'extraction (internal): %s\n%s' % (e, traceback.format_exc()[-1500:])

    def _run(self, tier):
        base = self.baseline()
        u = self.unit = gen.Unit(self.cfg, {k: v['locals'] for k, v in base.items()})
        text = u.generate()
        # names unique per check: the crate is rebuilt from the sources on every run
        path = os.path.join(self.dir, self.pid + '.rs')
        open(path, 'w').write(text)
        self.obl = [dict(key=i['key'], file=i['file'].replace(REPO + '/', ''), line=i['line'], contract=i['contract'], rust=i['name'], alias=bool(k[1]), loops=i['loops'], assumed=bool(i.get('assumed')))
                    for k, i in u.mod.info.items()]
        th = threading.Thread(target=self.run_smoke, args=(text,))
        th.start()
        rl = self.cfg.get('rlimit', 40)
        r = gen.run_verus(path, rlimit=rl, timeout=self.cfg.get('timeout', 480))
        self.res = r
        failed, soft = self.classify(u, r)
        if failed or soft:
            log('verus: %d verified, %d errors; retrying with a larger resource limit' % (r['verified'], r['errors']))
            failed, soft = self.retry(u, path, rl, r, failed, soft)
        th.join()
        if self.res.get('ok'):
            self.state = 'proved'
            if self.smoke and self.smoke.get('vacuous'):
                self.state, self.detail = 'vacuous', 'unreachable under its precondition: %s' % self.smoke['vacuous']
            return
        if not (self.res.get('verified') or self.res.get('errors')):
            self.state, self.detail = 'extract', 'verifier did not reach the obligations (the contracts no longer match the shape of the code, or time ran out): ' + self.res.get('stderr', '')[-2500:]
            return
        # an obligation of a function whose loop structure is not the one the invariants were written for is undecided
        hard = []
        for e in failed:
            b = base.get(e['key'])
            i = [x for x in self.obl if x['key'] == e['key']]
            if b is not None and i and b['loops'] != i[0]['loops']:
                soft.append(e)
            else:
                hard.append(e)
        self.failed = hard
        self.soft = soft
        if hard:
            self.state = 'failed'
        else:
            self.state, self.detail = 'undecided', '; '.join('%s: %s' % (e['key'], e['msg']) for e in soft) or self.res.get('stderr', '')[-1500:]

    def retry(self, u, path, rl, r, failed, soft):
        """Second opinion: the failing functions alone, larger resource limit, other solver seed."""
        seed = ['--smt-option', 'smt.random_seed=7']
        left = lambda: max(30, min(self.cfg.get('timeout', 600), DEADLINE - (time.time() - T0)))
        names = {}
        for e in failed + soft:
            n = e.get('rust')
            if n is None:
                names = None
                break
            names.setdefault(n, []).append(e)
        if names and len(names) <= 12 and r.get('errors'):
            def one(n):
                return n, gen.run_verus(path, rlimit=rl * 3, threads=1, timeout=left(), extra=seed + ['--verify-root', '--verify-function', n])
            f2, s2, okn, wall = [], [], 0, 0
            with ThreadPoolExecutor(4) as ex:
                for n, q in ex.map(one, sorted(names)):
                    wall = max(wall, q['wall'])
                    if q['ok'] and q.get('verified', 0) >= 1:
                        okn += 1
                        continue
                    ff, ss = self.classify(u, q)
                    ids = {e['id'] for e in ff}
                    f2 += [e for e in names[n] if e in failed and e['id'] in ids]
                    s2 += ss or [e for e in names[n] if e not in f2]
            r = dict(r, verified=r['verified'] + okn, errors=len(names) - okn, wall=r['wall'] + wall, retried=sorted(names), stderr='' if okn == len(names) else r['stderr'])
            r['ok'] = okn == len(names)
            self.res = r
            return f2, ([] if r['ok'] else s2)
        r2 = gen.run_verus(path, rlimit=rl * 3, timeout=left(), extra=seed)
        f2, s2 = self.classify(u, r2)
        if r2['ok']:
            self.res = r2
            return [], []
        if r2.get('verified', 0) or r2.get('errors', 0):
            ok2 = {e['id'] for e in f2}
            failed = [e for e in failed if e['id'] in ok2]
            self.res = r2
            soft = s2 or soft
        return failed, soft

    def classify(self, u, r):
        failed, soft = [], []
        if r['ok']:
            return failed, soft
        for e in gen.parse_errors(r['stderr']):
            k = None
            for l in e['lines']:
                k = u.fn_at(l)
                if k:
                    break
            key = u.mod.info[k]['key'] if k else self.lib_item(u, e)
            rust = u.mod.info[k]['name'] if k else (key[6:] if key.startswith('lemma ') else None)
            d = dict(key=key, rust=rust, msg=e['msg'], id='%s|%s' % (key, e['msg']), text='\n'.join(e['text'])[:4000])
            if 'esource limit' in e['msg'] or 'rlimit' in e['msg'] or 'timed out' in e['msg'].lower():
                soft.append(d)
            elif e['msg'].startswith('[E') or 'cannot find' in e['msg'] or 'mismatched types' in e['msg']:
                soft.append(d)
            else:
                failed.append(d)
        if r.get('timeout') or (not failed and not soft):
            soft.append(dict(key='(crate)', msg='verifier gave no verdict', id='x', text=r['stderr'][-2000:]))
        return failed, soft

    def lib_item(self, u, e):
        ls = u.text.split('\n')
        for l in e['lines'][:1]:
            for i in range(min(l, len(ls)) - 1, 0, -1):
                m = re.match(r'^(?:pub )?(?:broadcast )?(?:proof |open spec |closed spec )?fn (\w+)', ls[i])
                if m:
                    return 'lemma ' + m.group(1)
        return '(library)'

    def run_smoke(self, text):
        """Vacuity: with `assert(false)` as the first statement every function must FAIL to verify."""
        try:
            u = self.unit
            out, names = [], []
            lines = text.split('\n')
            spans = {a: (b, k) for a, b, k in u.spans}
            infn = None
            i = 0
            while i < len(lines):
                out.append(lines[i])
                m = re.match(r'^fn (f__\w+)', lines[i])
                if m:
                    infn = m.group(1)
                if infn and lines[i] == '{':
                    out.append('    proof { assert(false); } // vacuity probe')
                    names.append(infn)
                    infn = None
                i += 1
            p = os.path.join(self.dir, 'smoke.rs')
            open(p, 'w').write('\n'.join(out))
            r = gen.run_verus(p, rlimit=8, threads=2, timeout=400, extra=['--verify-root', '--verify-function', 'f__*'])
            bad = set()
            ls = '\n'.join(out).split('\n')
            for e in gen.parse_errors(r['stderr']):
                for l in e['lines'][:1]:
                    if 0 < l <= len(ls) and 'vacuity probe' in ls[l - 1]:
                        for j in range(l - 1, 0, -1):
                            m = re.match(r'^fn (f__\w+)', ls[j])
                            if m:
                                bad.add(m.group(1))
                                break
            vac = [n for n in names if n not in bad]
            if r.get('timeout') or not bad:
                self.smoke = dict(probes=len(names), refuted=len(bad), vacuous=[], note='probe run gave no verdict')
            else:
                self.smoke = dict(probes=len(names), refuted=len(bad), vacuous=vac)
        except Exception as ex:
            self.smoke = dict(probes=0, refuted=0, vacuous=[], note='probe run failed: %s' % ex)

def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^known: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out

def trusted_of(text):
    """Mechanical scan of the crate for everything that is assumed rather than proved."""
    t = []
    n = len(re.findall(r'(?m)^#\[verifier::external_body\] pub proof fn', text))
    if n:
        t.append('%d library lemmas assumed here and proved by the check named in contracts_assumed' % n)
    for m in re.finditer(r'#\[verifier::external_body\]\s*\n?(?:#\[[^\n]*\]\n)*pub (?:proof )?fn (\w+)', text):
        t.append('external_body %s' % m.group(1))
    for w in ('assume(', 'admit(', '#[verifier::axiom', 'assume_specification', 'external_fn_specification'):
        n = text.count(w)
        if n:
            t.append('%s x%d' % (w, n))
    return t

def main():
    global T0
    T0 = time.time()
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-harness', action='store_true')
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = props.UNITS[pid]
    hcfg = props.HARNESS.get(pid)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    evp = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    rc = 2
    try:
        rc = decide(pid, tier, seed, cfg, hcfg, scratch, evp, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, seed, cfg, hcfg, scratch, evp, a):
    pr = Prover(pid, cfg, scratch)
    ha = Harness(pid, hcfg, scratch) if hcfg else None
    def prove():
        if a.no_proof:
            pr.state, pr.detail = 'skipped', 'proof skipped on request'
        else:
            pr.run(tier)
            log('proof: %s  %d verified, %d errors, %.1fs  %s' % (pr.state, pr.res.get('verified', 0), pr.res.get('errors', 0), pr.res.get('wall', 0), pr.detail[:300]))
    th = threading.Thread(target=prove)
    th.start()
    budget = hcfg.get(tier, 20 if tier == 'quick' else 300) if hcfg else 0
    if ha and not a.no_harness:
        with ThreadPoolExecutor(8) as pool:
            built = ha.build(pool)
        log('harness build: %s' % ('ok' if built else 'FAILED ' + ha.detail[:1500]))
        if built:
            ha.run(seed, budget, tier)
            log('harness: %s %s' % (ha.state, ha.summary.get('evaluations', '')))
    th.join()
    extra = 0
    if ha and ha.state == 'pass' and pr.state in ('failed', 'undecided', 'extract'):
        # the proof is missing: search longer for a failing input
        for k in range(1, 4):
            extra += budget
            s0 = dict(ha.summary)
            if ha.run(seed + 7919 * k, budget * 1.5, tier) != 'pass':
                break
            ha.summary['evaluations'] = ha.summary.get('evaluations', 0) + s0.get('evaluations', 0)
        log('extended search: %s' % ha.state)
    hstate = ha.state if ha else 'none'
    # ---- decision
    viol, lines = [], []
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + '.txt')
    if os.path.exists(rp):
        os.remove(rp)
    for k in known_findings(pid):
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, k))
    if hstate == 'fail':
        with open(rp, 'w') as f:
            f.write('property %s: failing input found by running the real code\n%s\n' % (pid, ha.detail))
            f.write('reproduce: VERIF_SEED=%d python3 /verif/engine/check.py %s --no-proof\n' % (seed, pid))
            if pr.failed:
                f.write('\nfailed proof obligations:\n' + '\n'.join('%s: %s\n%s' % (e['key'], e['msg'], e['text']) for e in pr.failed))
        viol.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif pr.state == 'failed':
        with open(rp, 'w') as f:
            f.write('property %s: proof obligation(s) generated from /repo no longer hold; no failing input was found by the harness\n' % pid)
            for e in pr.failed:
                f.write('\nobligation: %s -- %s\nverifier output:\n%s\n' % (e['key'], e['msg'], e['text']))
            f.write('\nverifier command: %s\n' % pr.res.get('cmd'))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    ok = not viol and (pr.state == 'proved' or hstate == 'pass')
    # ---- evidence
    text = getattr(pr.unit, 'text', '') or '' if pr.unit else ''
    smt = []
    try:
        for m in pr.res['json']['times-ms']['smt']['smt-run-module-times']:
            for fb in m.get('function-breakdown', []):
                smt.append((fb['function'].split('::')[-1], fb['time']))
    except Exception:
        pass
    smtd = dict(smt)
    v, er = pr.res.get('verified', 0), pr.res.get('errors', 0)
    decided = 'proof' if pr.state == 'proved' else ('bounded fallback: %s' % pr.state)
    cov = dict(
        obligations=v + er, discharged=v, checker_cmd=pr.res.get('cmd', 'verus (not run)'),
        trusted_base=sorted(set(trusted_of(text))) + props.TRUSTED + cfg.get('trusted', []),
        back_end='Verus 0.2026.09 / Z3', decided_by=decided, proof_state=pr.state, proof_detail=pr.detail[:1500],
        solver_ms=sum(t for _, t in smt), verifier_wall_s=round(pr.res.get('wall', 0), 2),
        functions_under_contract=[dict(function=o['key'], at='%s:%s' % (o['file'], o['line']), loops=o['loops'], solver_ms=smtd.get(o['rust'])) for o in getattr(pr, 'obl', []) if o['contract'] and not o['assumed']],
        contracts_assumed=[dict(function=k, discharged_by=c) for k, c in getattr(pr.unit.mod, 'assumed_keys', []) + [('lemma library ' + k, c) for k, c in sorted(cfg.get('libs_assumed', {}).items())]] if pr.unit else [],
        functions_verified_without_contract=[o['key'] for o in getattr(pr, 'obl', []) if not o['contract']],
        inlined_callees=sorted(getattr(pr.unit.mod, 'inlined', [])) if pr.unit else [],
        extraction_drops=sorted({'%s: %s' % d for d in pr.unit.mod.dropped})[:200] if pr.unit else [],
        vacuity_probe=pr.smoke or {},
        failed_obligations=[dict(function=e['key'], obligation=e['msg']) for e in pr.failed],
        bounded=dict(what='conformance run of the real code (ASan+UBSan) against independent oracles; bounded, never counted as proved',
                     state=hstate, parts_decided_only_here=cfg.get('bounded', []), **(ha.summary if ha else {})))
    ev = dict(property=pid, tier=tier, seed=seed, level=props.level(pid), coverage=cov,
              assumptions=props.ASSUMPTIONS + cfg.get('assumptions', []), wall_s=round(time.time() - T0, 2), violations=len(viol))
    if ev['level'] != 'proof':
        cov['explanation'] = cfg.get('explanation', '')
        cov['evaluations'] = int((ha.summary if ha else {}).get('evaluations', 0))
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1, default=list)
        f.write('\n')
    for l in lines + viol:
        print(l, flush=True)
    if viol:
        return 1
    if ok:
        if pr.state == 'proved':
            log('property %s holds: %d obligations discharged, harness %s' % (pid, v, hstate))
        else:
            log('property %s: the proof could not be redone on this tree (%s); no violation found by the bounded run (%s)' % (pid, pr.state, hstate))
        return 0
    log('no verdict: proof %s (%s), harness %s (%s)' % (pr.state, pr.detail[:2000], hstate, ha.detail[:1000] if ha else ''))
    return 2

if __name__ == '__main__':
    main()
