#!/usr/bin/env python3
"""seedrun.py SEEDS.py [ID..]: plant every bug of SEEDS (dict), check its demo, the stable tests and our check (in place in /repo, undone)."""
import sys, os, json, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed
V = seed.V
S = {}; exec(open(sys.argv[1]).read(), dict(S=S))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for k in (sys.argv[2:] or list(S)):
    e = seed.plant(k, S[k])
    if e: print(k, 'REJECTED', e); shutil.rmtree(os.path.join(V, 'seeded', k), ignore_errors=True); continue
    r = seed.tests(k)
    if isinstance(r, str): print(r); continue
    res, t = r; bad = stable - set(res['passed'])
    if bad: print(k, 'REJECTED breaks tests', sorted(bad)[:5]); shutil.rmtree(os.path.join(V, 'seeded', k)); continue
    p = S[k]['property']
    out = ''
    if os.environ.get('NOCHECK') != '1':
        seed.sh(['git', '-C', '/repo', 'apply', os.path.join(V, 'seeded', k, 'patch.diff')])
        try: c = seed.sh(['python3', V + '/engine/check.py', p, '--tier', 'quick']); out = 'check rc=%d %s' % (c.returncode, ' | '.join(l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'undecided' in l)[:200])
        finally: seed.sh(['git', '-C', '/repo', 'checkout', '--', '.'])
    print(k, 'OK', out, flush=True)
