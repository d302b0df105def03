"""Planted bugs: create (from edits) and try (patch applies, tests pass, demo, check).
usage: seed.py try ID [--tier quick] | seed.py all"""
import json, os, re, shutil, subprocess, sys, tempfile, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def copy():
    d = tempfile.mkdtemp(prefix='seed.')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    subprocess.check_call(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'])
    return d


def make(sid, prop, edits, demo, needs, breaks):
    """edits: [(path below /repo, old, new)]"""
    d = copy()
    try:
        for path, old, new in edits:
            f = d + '/repo/' + path
            s = open(f).read()
            assert s.count(old) == 1, (sid, path, s.count(old), old)
            open(f, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', d + '/repo', 'diff']).decode()
    finally:
        shutil.rmtree(d)
    o = V + '/seeded/' + sid
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.py', 'w').write(textwrap.dedent(demo).lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD\nd=$(cd "$(dirname "$0")" && pwd)\nexec %s -W ignore "$d/demo.py"\n' % PY)
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)


def tests(repo):
    """stable tests that do not pass"""
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    t = tempfile.mkdtemp(prefix='seedt.')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH=repo)
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--tb=short', '-W', 'ignore', '--continue-on-collection-errors',
                        '-o', 'python_files=*_tests.py *_test.py test_*.py', '-o', 'junit_family=xunit2', '--junitxml=' + t + '/j.xml', 'paramz/tests'], cwd=repo, env=env, capture_output=True)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', t + '/out.json', 'junit:' + t + '/j.xml'], capture_output=True)
        r = json.load(open(t + '/out.json'))
        ok = set(r.get('passed', []))
        return [x for x in base if x not in ok]
    finally:
        shutil.rmtree(t)


def record(sid, r):
    f = V + '/tools/seeded_results.json'
    d = json.load(open(f)) if os.path.exists(f) else {}
    d[sid] = r
    d = {k: v for k, v in sorted(d.items()) if os.path.isdir(V + '/seeded/' + k)}
    json.dump(d, open(f, 'w'), indent=1)


def attempt(sid, check=True, tier='quick'):
    o = V + '/seeded/' + sid
    meta = json.load(open(o + '/meta.json'))
    d = copy()
    res = {'id': sid, 'property': meta['property']}
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        demo = lambda: subprocess.run(['bash', o + '/demo.sh'], cwd=d + '/repo', env=env, capture_output=True, text=True, timeout=300)
        r = demo()
        res['demo_clean'] = r.returncode
        if r.returncode:
            res['demo_out'] = (r.stdout + r.stderr)[-600:]
        a = subprocess.run(['git', '-C', d + '/repo', 'apply', o + '/patch.diff'], capture_output=True, text=True)
        res['applies'] = a.returncode == 0
        if a.returncode:
            res['apply_err'] = a.stderr[-300:]
        res['demo_bug'] = demo().returncode
        res['tests'] = tests(d + '/repo')
        if check:
            r = subprocess.run([PY, '-m', 'symx.run', meta['property'], '--tier', tier], cwd=V, env=dict(env, SYMX_REPO=d + '/repo'), capture_output=True, text=True)
            res['check'] = r.returncode
            res['check_line'] = [l[:300] for l in r.stdout.splitlines() if 'VIOLATION' in l][:1]
            said = [l.strip() for l in r.stdout.splitlines() if re.match(r'  \w+: ', l) and not l.startswith('  inputs')]
            record(sid, {'caught': r.returncode == 1, 'by': sorted(set(said))[:2]})
    finally:
        shutil.rmtree(d)
    res['ok'] = res['demo_clean'] == 0 and res['demo_bug'] != 0 and res['applies'] and not res['tests']
    return res


if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] if sys.argv[1] == 'try' else sorted(os.listdir(V + '/seeded'))
    if sys.argv[1] == 'prop':
        ids = [i for i in sorted(os.listdir(V + '/seeded')) if json.load(open(V + '/seeded/%s/meta.json' % i))['property'] in sys.argv[2:]]
    for i in ids:
        r = attempt(i)
        print(('ok   ' if r['ok'] else 'BAD  ') + ('caught ' if r.get('check') == 1 else 'MISSED '), json.dumps(r)[:900], flush=True)
