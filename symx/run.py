"""python -m symx.run C01 [--tier quick|thorough] : decide one property."""
import sys, os, json, time, hashlib, argparse, collections, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_ids(prop):
    """findings listed in known_findings.txt for this property"""
    ids = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(f.split('=', 1) for f in line.split()[1:3])
                if d.get('property') == prop:
                    ids[d['id']] = line.split(None, 3)[3]
    return ids


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--scenario', default=None)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--wall', type=float, default=None)
    ap.add_argument('--replay', default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    wall = a.wall or (400 if tier == 'quick' else 840)
    prop = a.property
    t0 = time.time()
    os.chdir(ROOT)
    if os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        os.execve(sys.executable, [sys.executable, '-m', 'symx.run'] + sys.argv[1:], env)
    from . import boot
    try:
        boot.boot(True)
    except Exception as e:
        import traceback
        traceback.print_exc()
        # does the code import at all on the real numpy?
        r = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, %r); import paramz, paramz.examples.ridge_regression' % boot.REPO], capture_output=True)
        if r.returncode == 0:
            print('INCONCLUSIVE: the code does not load on the emulated numpy: %r' % e)
            write_evidence(prop, tier, seed, [], [], {}, time.time() - t0, {}, error=repr(e))
            sys.exit(0)
        print('VIOLATION property=%s replay=%s' % (prop, 'import'))
        sys.exit(1)
    from . import harness, explore
    mod, scns = harness.load(prop)
    if a.scenario:
        scns = [s for s in scns if s.name in a.scenario.split(',')]
    scns = [s for s in scns if s.params[tier] is not None and not (tier == 'quick' and s.params['quick'] is None)]
    out, incomplete, wall_s = explore.explore(prop, tier, scns, a.workers, wall, seed)
    kids = known_ids(prop)
    viol = []
    known = {}
    for s, r in zip(scns, out):
        for v in r.violations:
            viol.append(v)
        for fid, req in r.known.items():
            if fid in kids:
                known[fid] = req
            else:
                viol.append(dict(req))
    os.makedirs(os.path.join(ROOT, 'out', 'replays'), exist_ok=True)
    lines = []
    for v in viol[:5]:
        body = json.dumps(v, sort_keys=True, default=str)
        path = os.path.join(ROOT, 'out', 'replays', '%s-%s.json' % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
        open(path, 'w').write(body)
        lines.append((v, path))
    cov = write_evidence(prop, tier, seed, scns, out, incomplete, time.time() - t0, kids, viol=lines, known=known)
    if a.verbose:
        for s, r in zip(scns, out):
            print('%-28s paths %5d out %s q %d final %d st %.1fs unk %d val %d end %.1fs' % (s.name, r.paths, dict(r.outcomes), r.queries, r.final_queries, r.solver_time, r.unknown, r.validated, getattr(r, 'last', 0)))
            for n, c in r.notes.most_common(8):
                print('      %s x%d' % (n, c))
            for x in r.sample_bad[:3]:
                print('      SAMPLE', json.dumps(x, default=str)[:600])
            for x in r.nonrepro[:3]:
                print('      NONREPRO', json.dumps(x, default=str)[:900])
        print('incomplete', incomplete)
    print('%s %s: %s' % (prop, tier, ', '.join('%s=%s' % kv for kv in cov.items() if not isinstance(kv[1], (list, dict)))))
    for s, r in zip(scns, out):
        if not r.paths:
            print('WARNING: no path of scenario %s was executed to its end' % s.name)
    for fid in kids:
        if fid in known:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, fid, kids[fid]))
        else:
            print('known finding %s of %s was not observed in this run' % (fid, prop))
    for v, path in lines:
        print('  %s: %s' % (v['scenario'], v['what']))
        for st in (v.get('steps') or [])[:40]:
            print('      %s' % st)
        print('  inputs: %s' % json.dumps(v['inputs'])[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    os._exit(1 if lines else 0)


def write_evidence(prop, tier, seed, scns, out, incomplete, wall_s, kids, viol=(), known={}, error=None):
    funcs = set()
    tot = collections.Counter()
    st = 0.0
    samples = []
    notes = collections.Counter()
    per = []
    for s, r in zip(scns, out):
        funcs |= r.funcs
        for k in ('paths', 'queries', 'final_queries', 'unknown', 'validated', 'checks', 'trivial'):
            tot[k] += getattr(r, k)
        st += r.solver_time
        for n, c in r.notes.items():
            notes['%s: %s' % (s.name, n)] += c
        samples += r.samples[:2]
        per.append({'scenario': s.name, 'bounds': s.bounds, 'parameters': s.params[tier], 'paths': r.paths, 'outcomes': dict(r.outcomes), 'queries': r.queries,
                    'assertion_queries': r.final_queries, 'assertions': r.checks, 'assertions_closed_by_simplification': r.trivial, 'solver_time_s': round(r.solver_time, 2), 'max_branch_decisions': r.maxforks,
                    'undecided': r.unknown, 'replayed_and_agreeing': r.validated, 'encoding_disagreements': r.sample_bad[:3], 'not_reproduced': r.nonrepro[:2],
                    'complete': r.paths > 0 and s.name not in incomplete and not (r.outcomes['unknown'] + r.outcomes['unsupported'] + r.outcomes['limit'] + r.outcomes['nonrepro']),
                    'assertion_kinds': sorted(x.split(': ', 1)[1] for x in r.msgs)[:40]})
    body = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall_s, 2),
            'coverage': {'states': int(tot['checks']), 'transitions': int(tot['paths']), 'traces_validated_against_impl': int(tot['validated']),
                         'states_are': 'assertions decided on symbolic paths', 'transitions_are': 'symbolic paths executed to the end',
                         'queries': int(tot['queries']), 'assertion_queries': int(tot['final_queries']), 'solver': 'z3 (python API)', 'solver_time_s': round(st, 2),
                         'functions_encoded': sorted(funcs), 'n_functions_encoded': len(funcs), 'scenarios': per, 'incomplete': incomplete,
                         'undecided_branches': int(tot['unknown']), 'notes': dict(notes.most_common(30)), 'samples': samples[:12]},
            'assumptions': ['machine floats are modelled as exact reals plus inf/nan', 'numpy is replaced by an emulation whose agreement with the real numpy is re-checked by replaying path models',
                            'nothing is claimed beyond the per-scenario bounds'],
            'violations': len(viol), 'violations_found': [{'what': v['what'], 'scenario': v['scenario'], 'replay': p} for v, p in viol]}
    if error:
        body['coverage']['error'] = error
    body['known_findings'] = {k: v.get('what') for k, v in known.items()}
    txt = json.dumps(body, indent=1, default=str)
    if len(txt) > 60000:
        for s in body['coverage']['scenarios']:
            s['assertion_kinds'] = s['assertion_kinds'][:6]
        txt = json.dumps(body, default=str)
    if len(txt) > 60000:
        body['coverage']['samples'] = samples[:3]
        txt = json.dumps(body, default=str)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w').write(txt)
    return {'scenarios': len(scns), 'paths': tot['paths'], 'assertions': tot['checks'], 'queries': tot['queries'], 'assertion_queries': tot['final_queries'],
            'solver_s': round(st, 1), 'undecided': tot['unknown'] + sum(r.outcomes['unknown'] + r.outcomes['nonrepro'] + r.outcomes['unsupported'] + r.outcomes['limit'] for r in out), 'replayed': tot['validated'], 'disagreements': sum(len(r.sample_bad) for r in out),
            'functions': len(funcs), 'incomplete_scenarios': len(incomplete), 'wall_s': round(wall_s, 1)}


if __name__ == '__main__':
    main()
