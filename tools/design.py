"""Writes DESIGN.md: the text of tools/design_head.md, a section per property (method from METHOD
below, scenarios and bounds from checks/*.py, costs from evidence and out/times.json if present),
defects from known_findings.txt and the planted bugs from seeded/ and tools/seeded_results.json."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
METHOD = {}
exec(open(os.path.join(ROOT, 'tools', 'design_methods.py')).read())


def scenarios(i):
    """names, bounds and parameters as written in the source (the modules import numpy and paramz)"""
    import ast
    t = ast.parse(open(os.path.join(ROOT, 'checks', i.lower() + '.py')).read())
    out = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'scenario':
                    kw = {k.arg: k.value for k in d.keywords}
                    name = d.args[0].value if d.args else n.name
                    b = kw.get('bounds')
                    par = {k: (ast.unparse(kw[k])[5:-1] if isinstance(kw[k], ast.Call) else ast.unparse(kw[k])) for k in ('quick', 'thorough') if k in kw}
                    out.append((name, b.value if isinstance(b, ast.Constant) else ast.unparse(b) if b is not None else '', par))
    return out


def main():
    P = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip(), '', '## Properties: how each is decided', '']
    costs = {}
    f = os.path.join(ROOT, 'tools', 'costs.json')
    if os.path.exists(f):
        costs = json.load(open(f))
    for p in P:
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '', re.sub(r'\n\s*', ' ', METHOD[i].strip()), '']
        out += ['Scenarios and bounds (parameters of the quick and the thorough tier in parentheses; complete unless the evidence file says otherwise):', '']
        for n, b, par in scenarios(i):
            q, t = par.get('quick'), par.get('thorough')
            s = []
            if q is not None and q != '':
                s.append('quick: ' + ('left out' if q == 'None' else q))
            if t not in (None, ''):
                s.append('thorough: ' + t)
            out.append('- `%s`: %s%s' % (n, b, ' (' + '; '.join(s) + ')' if s else ''))
        c = costs.get(i)
        if c:
            out += ['', 'Cost when last measured (8 cores): ' + '; '.join('%s %s s, %s paths, %s assertions, %s queries' % (t, v['wall_s'], v['paths'], v['assertions'], v['queries']) + ('' if not v.get('incomplete') else ', not exhausted: ' + ', '.join(v['incomplete'])) for t, v in sorted(c.items())) + '.']
        out.append('')
    out += ['## Genuine defects', '',
            'Found by the checks on the original tree. `fixed` ones are repaired in /repo by the named "fix:" commit (the check reports the violation again when that commit is reverted); `finding` ones are open (known_findings.txt) and printed as KNOWN-FINDING.', '']
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        l = l.strip()
        if l and not l.startswith('#'):
            out.append('- ' + l)
    out += ['', '## Planted bugs', '', 'Each was written from the property text and the code. "caught by": quick tier of the check of its property.', '',
            '| id | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
    f = os.path.join(ROOT, 'tools', 'seeded_results.json')
    res = json.load(open(f)) if os.path.exists(f) else {}
    for sid in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', sid, 'meta.json')))
        r = res.get(sid, {})
        out.append('| %s | %s | %s | %s | %s |' % (sid, m['property'], m['what_it_breaks'], m['needs'], 'not run' if not r else '; '.join(r['by']) if r['caught'] else 'missed'))
    tail = os.path.join(ROOT, 'tools', 'design_tail.md')
    if os.path.exists(tail):
        out += ['', open(tail).read().rstrip()]
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
