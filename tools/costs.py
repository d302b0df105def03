"""costs.py TIER [ID...]: run checks and remember what they cost (tools/costs.json, shown in DESIGN.md)"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(ROOT, 'tools', 'costs.json')
tier = sys.argv[1]
ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 40) if os.path.exists(os.path.join(ROOT, 'checks', 'c%02d.py' % i))]
for i in ids:
    r = subprocess.run([sys.executable, '-m', 'symx.run', i, '--tier', tier], cwd=ROOT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
    e = json.load(open(os.path.join(ROOT, 'evidence', i + '.json')))
    c = json.load(open(f)) if os.path.exists(f) else {}
    s = e['coverage']['scenarios']
    c.setdefault(i, {})[tier] = {'wall_s': round(e['wall_s']), 'paths': sum(x['paths'] for x in s), 'assertions': sum(x['assertions'] for x in s), 'queries': e['coverage']['queries'],
                                 'incomplete': [x['scenario'] for x in s if not x['complete']]}
    json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
    print(i, tier, 'rc', r.returncode, c[i][tier], [l[:200] for l in r.stdout.splitlines() if 'VIOL' in l][:1], flush=True)
