"""path counts per scenario of the last run"""
import json, sys
for i in sys.argv[1:]:
    e = json.load(open('/verif/evidence/%s.json' % i))
    def find(o):
        if isinstance(o, dict):
            if 'scenario' in o: yield o
            for v in o.values(): yield from find(v)
        elif isinstance(o, list):
            for v in o: yield from find(v)
    print(i, e['wall_s'])
    for s in find(e): print('  ', {k: v for k, v in s.items() if k in ('scenario', 'paths', 'complete', 'wall_s', 'params')})
