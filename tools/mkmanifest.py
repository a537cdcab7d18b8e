"""Writes MANIFEST.json: claims = props.UNITS, everything else not_applicable with its reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in ids:
    if p in props.UNITS:
        c = props.UNITS[p]
        note = props.NOTE.get(p, 'Every function in the call closure is verified by Verus against its contract for all inputs within the stated preconditions.')
        checks.append(dict(property=p, quick_cmd='python3 engine/check.py %s --tier quick' % p, thorough_cmd='python3 engine/check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique='contract-based deductive verification: C++ functions extracted mechanically to Verus, obligations discharged by Z3; conformance run of the real code for failing inputs',
                           level=props.level(p), level_note=note + ' Trusted: the extraction (clang AST to Verus), Verus, Z3. The sanitizer run only adds failing inputs; it is bounded and not counted as proof.'))
    else:
        na.append(dict(property=p, reason=props.NA.get(p, 'No contract has been built for this part yet.')))
m = dict(version=1, setup_cmd='python3 engine/setup.py', checks=checks, not_applicable=na,
         notes='Machinery: engine/ (extraction, prover driver), specs/ (contracts and lemmas), harness/ (conformance runs). known_findings.txt lists repaired and recorded defects. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
