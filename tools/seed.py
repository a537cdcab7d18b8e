#!/usr/bin/env python3
"""Plant a bug: seed.py ID SPEC.json   (SPEC: property, needs, breaks, edits=[[file,old,new],...], sources=[...], demo=C++ text)
Writes /verif/seeded/ID, validates it in a scratch copy of /repo (builds, stable tests pass, demo passes without
and fails with the patch) and deletes it again when it does not qualify."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
def plant(ident, spec, validate=True):
    d = os.path.join(V, 'seeded', ident)
    w = tempfile.mkdtemp(prefix='seed.')
    r = os.path.join(w, 'repo')
    try:
        sh(['git', 'clone', '-q', '/repo', r])
        for f, old, new in spec['edits']:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: return '%s: old text occurs %d times in %s' % (ident, s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        patch = sh(['git', '-C', r, 'diff']).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump(dict(property=spec['property'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.cpp', 'w').write(spec['demo'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -I. %s "$d/demo.cpp" %s -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
''' % (spec.get('flags', ''), ' '.join(spec['sources'])))
        os.chmod(d + '/demo.sh', 0o755)
        if not validate: return '%s: written, not validated' % ident
        a = sh(['bash', d + '/demo.sh'], cwd=r); 
        sh(['git', '-C', r, 'stash', '-q'])
        b = sh(['bash', d + '/demo.sh'], cwd=r)
        if b.returncode != 0 or a.returncode == 0 :
            return '%s: demo unpatched rc=%d patched rc=%d\n%s%s' % (ident, b.returncode, a.returncode, b.stdout[-500:]+b.stderr[-1500:], a.stderr[-500:])
        return None
    finally:
        shutil.rmtree(w)
def tests(ident):
    """run the stable tests with the patch, in place in /repo (undone straight afterwards)"""
    base = json.load(open('/opt/vp/BASELINE.json'))
    base = base.get('stable', base) if isinstance(base, dict) else base
    d = os.path.join(V, 'seeded', ident)
    a = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    if a.returncode: return ident + ': does not apply ' + a.stderr
    try:
        o = tempfile.mktemp(suffix='.json')
        t = sh(['bash', '/opt/vp/test.sh', o])
        res = json.load(open(o)); os.remove(o)
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.']); sh(['bash', '/opt/vp/build.sh'])
    return res, t
if __name__ == '__main__':
    print(plant(sys.argv[1], json.load(open(sys.argv[2]))) or 'ok')
