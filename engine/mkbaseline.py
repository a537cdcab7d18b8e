"""Records, for the tree the contracts were written against, the local names and loop counts of the
contracted functions (used to re-attach hints after a rename and to notice a changed loop structure)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, props
out = {}
p = os.path.join(gen.VERIF, 'engine', 'baseline_locals.json')
ids = sys.argv[1:] or list(props.UNITS)
if os.path.exists(p) and sys.argv[1:]:
    out = json.load(open(p))
for pid in ids:
    u = gen.Unit(props.UNITS[pid])
    u.generate()
    for k, i in u.mod.info.items():
        if not k[1] or i['key'] not in out:
            out[i['key']] = dict(locals=[list(x) for x in i['locals']], loops=i['loops'])
json.dump(out, open(p, 'w'), indent=0, sort_keys=True)
print(len(out), 'functions')
