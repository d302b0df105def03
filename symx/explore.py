"""Path exploration: every path of a scenario is executed symbolically, its
assertions are decided by the solver, and a satisfying assignment of a negated
assertion is replayed on the real code before it counts as a violation."""
import sys, os, time, signal, math, traceback, random, collections
from fractions import Fraction
from . import boot, harness, sym as S, replay
import z3

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


# ---------------------------------------------------------------- numeric evaluation of terms
class _NoValue(Exception):
    pass


def nev(t, env, defs, ufs, cache):
    i = t.get_id()
    if i in cache:
        return cache[i]
    r = _nev(t, env, defs, ufs, cache)
    cache[i] = r
    return r


def _nev(t, env, defs, ufs, cache):
    if z3.is_rational_value(t):
        return float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    k = t.decl().kind()
    ch = t.children()
    g = lambda c: nev(c, env, defs, ufs, cache)
    if k == z3.Z3_OP_ITE:
        return g(ch[1]) if g(ch[0]) else g(ch[2])
    if k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if not ch:
            if n in env:
                return env[n]
            if n in defs:
                f, a = defs[n]
                v = g(a)
                if f == 'floor':
                    return math.floor(v)
                try:
                    return math.log(v) if f == 'log' else math.sqrt(v)
                except ValueError:
                    raise _NoValue(n)
            raise _NoValue(n)
        a = [g(c) for c in ch]
        if n == 'EXP':
            try:
                return math.exp(a[0])
            except OverflowError:
                return math.inf
        for xs, y in ufs.get(n, []):
            if all(abs(x - b) <= 1e-7 * (1 + abs(x)) for x, b in zip(xs, a)):
                return y
        raise _NoValue(n)
    if k == z3.Z3_OP_AND:
        return all(g(c) for c in ch)
    if k == z3.Z3_OP_OR:
        return any(g(c) for c in ch)
    a = [g(c) for c in ch]
    if k == z3.Z3_OP_ADD:
        return sum(a)
    if k == z3.Z3_OP_SUB:
        r = a[0]
        for b in a[1:]:
            r -= b
        return r
    if k == z3.Z3_OP_MUL:
        r = 1
        for b in a:
            r *= b
        return r
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k == z3.Z3_OP_DIV:
        if a[1] == 0:
            raise _NoValue('div0')
        return a[0] / a[1]
    if k == z3.Z3_OP_IDIV:
        return a[0] // a[1]
    if k == z3.Z3_OP_MOD:
        return a[0] % a[1]
    if k == z3.Z3_OP_POWER:
        return a[0] ** a[1]
    if k == z3.Z3_OP_TO_REAL:
        return a[0]
    if k == z3.Z3_OP_TO_INT:
        return math.floor(a[0])
    if k == z3.Z3_OP_NOT:
        return not a[0]
    if k == z3.Z3_OP_EQ:
        return a[0] == a[1] if not isinstance(a[0], float) and not isinstance(a[1], float) else abs(a[0] - a[1]) <= 1e-7 * (1 + abs(a[0]))
    if k == z3.Z3_OP_DISTINCT:
        return a[0] != a[1]
    if k == z3.Z3_OP_LE:
        return a[0] <= a[1] + 1e-9 * (1 + abs(a[0]))
    if k == z3.Z3_OP_GE:
        return a[0] >= a[1] - 1e-9 * (1 + abs(a[0]))
    if k == z3.Z3_OP_LT:
        return a[0] < a[1] + 1e-9 * (1 + abs(a[0]))
    if k == z3.Z3_OP_GT:
        return a[0] > a[1] - 1e-9 * (1 + abs(a[0]))
    if k == z3.Z3_OP_XOR:
        return bool(a[0]) != bool(a[1])
    if k == z3.Z3_OP_IMPLIES:
        return (not a[0]) or a[1]
    raise _NoValue('op %s' % t.decl())


def _val(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_algebraic_value(r):
        q = r.approx(20)
        return float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
    return 0.0


def inputs_of(m, ctx):
    return {n: _val(m, v) for n, (k, v) in ctx.inputs.items()}


def ufs_of(m, h):
    out = {}
    for n, l in h.uf_tables.items():
        rows = []
        for zs, t in l:
            rows.append(([_val(m, z) for z in zs], _val(m, t)))
        out[n] = rows
    return out


# ---------------------------------------------------------------- one path
class Result:
    def __init__(self):
        self.paths = self.queries = self.unknown = self.infeasible = self.trivial = 0
        self.final_queries = 0
        self.solver_time = 0.0
        self.outcomes = collections.Counter()
        self.notes = collections.Counter()
        self.violations = []
        self.known = {}
        self.samples = []
        self.validated = 0
        self.sample_bad = []
        self.nonrepro = []
        self.funcs = set()
        self.maxforks = 0
        self.checks = 0
        self.msgs = set()
        self.labels = set()

    def merge(self, o):
        for k in ('paths', 'queries', 'unknown', 'infeasible', 'trivial', 'final_queries', 'validated', 'checks'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.solver_time += o.solver_time
        self.outcomes += o.outcomes
        self.notes += o.notes
        self.violations += o.violations
        self.known.update(o.known)
        self.samples += o.samples
        self.sample_bad += o.sample_bad
        self.nonrepro += o.nonrepro
        self.funcs |= o.funcs
        self.msgs |= o.msgs
        self.maxforks = max(self.maxforks, o.maxforks)


def _bounded(ctx, b, extra=()):
    cs = []
    for n, (k, v) in ctx.inputs.items():
        if k == 'real':
            cs += [v <= b, v >= -b]
        elif k == 'int':
            cs += [v <= max(int(b), 8) * 4, v >= -max(int(b), 8) * 4]
    return cs


class PathRunner:
    def __init__(self, prop, tier, client, funcs):
        self.prop, self.tier, self.client, self.funcs = prop, tier, client, funcs

    def run(self, scn, prefix, res, want_sample):
        """-> list of sibling prefixes"""
        params = scn.params[self.tier]
        ctx = S.Ctx(prefix)
        S.set_ctx(ctx)
        boot.restore()
        h = harness.SymH(ctx)
        exc = None
        outcome = 'ok'
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, scn.timeout)
        old = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        try:
            scn.fn(h, **params)
        except S.PathInfeasible:
            outcome = 'infeasible'
        except S.Unsupported as e:
            outcome = 'unsupported'
            fr = traceback.extract_tb(e.__traceback__)
            fr = [f for f in fr if '/paramz/' in f.filename or '/checks/' in f.filename]
            res.notes['unsupported: %s%s' % (e, ' at %s:%d' % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else '')] += 1
        except S.PathLimit as e:
            outcome = 'limit'
            res.notes['limit: %s' % e] += 1
        except PathTimeout as e:
            outcome = 'timeout'
            exc = ('PathTimeout', traceback.extract_tb(e.__traceback__))
        except RecursionError as e:
            outcome = 'exception'
            exc = e
        except Exception as e:
            outcome = 'exception'
            exc = e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout.close()
            sys.stdout = old
        try:
            if outcome == 'ok':
                outcome = self.final(scn, params, ctx, h, res, want_sample)
            elif outcome in ('exception', 'timeout'):
                outcome = self.crash(scn, params, ctx, h, res, outcome, exc)
        finally:
            boot.restore()
        res.paths += 1
        res.outcomes[outcome] += 1
        res.queries += ctx.nqueries
        res.unknown += ctx.unknowns
        res.solver_time += ctx.solver_time
        res.maxforks = max(res.maxforks, len(ctx.trace))
        if ctx.unknowns:
            res.notes['undecided branch explored both ways'] += ctx.unknowns
        S.set_ctx(None)
        return ctx.siblings

    # -- solving
    def _solve(self, ctx, conds, rlimit=None):
        t = time.time()
        ctx.nqueries += 1
        ctx.solver.set('rlimit', rlimit or ctx.FINAL_RLIMIT)
        mixed = any(f == 'floor' for f, _ in ctx.defs.values())
        r = z3.unknown if mixed else ctx.solver.check(*conds)
        m = ctx.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            s = z3.Solver()
            s.set('rlimit', rlimit or ctx.FINAL_RLIMIT)
            if mixed:
                s.set('arith.solver', 6)
            s.set('timeout', 40000)
            s.add(*ctx.pc)
            s.add(*conds)
            r = s.check()
            m = s.model() if r == z3.sat else None
        ctx.solver.set('rlimit', ctx.RLIMIT)
        ctx.solver_time += time.time() - t
        return r, m

    def final(self, scn, params, ctx, h, res, want_sample):
        bad, known = [], []
        for z, msg, kn in h.checks:
            res.checks += 1
            res.msgs.add(scn.name + ': ' + msg)
            if z3.is_true(z):
                res.trivial += 1
                continue
            nz = z3.Not(z)
            if kn is None:
                bad.append(nz)
            else:
                ks = kn if isinstance(kn, (list, tuple)) else [kn]
                w = [S.sbool(S.truth(k.when)) for k in ks]
                bad.append(z3.And(nz, *[z3.Not(x) for x in w]))
                for k, x in zip(ks, w):
                    known.append((k.fid, z3.And(nz, x)))
        for fid, c in known:
            if fid in res.known:
                continue
            r, m = self._solve(ctx, [c])
            if r == z3.sat:
                self.candidate(scn, params, ctx, h, res, [c], fid)
        if bad:
            b = z3.Or(*bad) if len(bad) > 1 else bad[0]
            res.final_queries += 1
            r, m = self._solve(ctx, [b])
            if r == z3.unknown:
                res.notes['solver gave no answer on an assertion'] += 1
                return 'unknown'
            if r == z3.sat:
                ok = self.candidate(scn, params, ctx, h, res, [b], None)
                if ok:
                    return 'violation'
                if ok is None:
                    return 'ok'      # refuted by refinement
                return 'nonrepro'
        if want_sample:
            self.sample(scn, params, ctx, h, res)
        return 'ok'

    def crash(self, scn, params, ctx, h, res, outcome, exc):
        ok = self.candidate(scn, params, ctx, h, res, [], None, crash=exc, timeout=outcome == 'timeout')
        if ok:
            return 'violation'
        if ok is None:
            return 'infeasible'
        if outcome == 'exception':
            tb = traceback.extract_tb(exc.__traceback__)
            last = tb[-1]
            pz = [f for f in tb if '/paramz/' in f.filename or '/checks/' in f.filename]
            where = pz[-1] if pz else last
            res.notes['exception not reproduced: %s: %s at %s:%d (%s:%d)' % (type(exc).__name__, str(exc)[:100], os.path.basename(where.filename), where.lineno, os.path.basename(last.filename), last.lineno)] += 1
        else:
            fr = [f for f in exc[1] if '/paramz/' in f.filename or '/checks/' in f.filename]
            res.notes['path time limit at %s' % (['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fr[-1:]])] += 1
        return 'nonrepro'

    def _prefer(self, ctx, h, conds):
        """models in increasing order of awkwardness"""
        margin = [z3.Or(d >= 1, d <= -1) for d in h.bounded_reals]
        small = [z3.Or(d >= rq(1, 1000), d <= rq(-1, 1000)) for d in h.bounded_reals]
        robust = [z3.Or(z3.And(z3.Or(*margin)), False)] if margin else []
        rob2 = [z3.Or(*small)] if small else []
        n = 0
        for extra in (_bounded(ctx, 4) + robust, _bounded(ctx, 4), _bounded(ctx, 60) + robust, _bounded(ctx, 60) + rob2, robust, []):
            r, m = self._solve(ctx, conds + extra, 20000000)
            if r == z3.sat:
                yield m
                n += 1
                if n >= 3:
                    return
            elif not extra and r == z3.unsat:
                return

    def candidate(self, scn, params, ctx, h, res, conds, fid, crash=None, timeout=False):
        """True: reproduced; None: refuted; False: not reproduced"""
        r0, _ = self._solve(ctx, conds)
        if r0 == z3.unsat:
            return None
        first = None
        for it in range(6):
            got = False
            for m in self._prefer(ctx, h, conds):
                got = True
                inp, ufs = inputs_of(m, ctx), ufs_of(m, h)
                req = {'property': self.prop, 'scenario': scn.name, 'params': params, 'inputs': inp, 'ufs': ufs}
                ans = self.client.ask(req, max(15, scn.timeout / 3.))
                bad = self.judge(ans)
                if bad is None and ctx.freed:
                    req['churn'] = True
                    ans = self.client.ask(req, max(30, scn.timeout / 2.))
                    bad = self.judge(ans)
                if bad is not None:
                    if fid is not None or bad[1]:
                        res.known[bad[1] or fid] = dict(req, what=bad[0])
                        return True
                    res.violations.append(dict(req, what=bad[0], steps=ans.get('steps')))
                    return True
                if first is None:
                    first = (inp, {k: v for k, v in ans.items() if k != 'observed'})
                if ctx.exp_terms:
                    break
            if not got:
                return None
            if not ctx.exp_terms:
                break
            # refine the bounds of exp around the values of this model
            for t, e in list(ctx.exp_terms):
                q = m.eval(t, model_completion=True)
                if not z3.is_rational_value(q):
                    if z3.is_algebraic_value(q):
                        q = q.approx(15)
                    else:
                        continue
                fq = Fraction(q.numerator_as_long(), q.denominator_as_long()).limit_denominator(10**9)
                if abs(fq) > 1500:
                    continue
                lo, hi = S.exp_bounds(fq)
                qq = z3.RealVal(fq)
                ctx.add(z3.And(z3.Implies(t <= qq, e <= z3.RealVal(hi)), z3.Implies(t >= qq, e >= z3.RealVal(lo)),
                               e >= z3.RealVal(lo) * (1 + (t - qq)) - z3.RealVal(hi - lo),
                               z3.Implies(t == qq, z3.And(e >= z3.RealVal(lo), e <= z3.RealVal(hi))),
                               # exp(q+d) <= exp(q)/(1-d) for d<1
                               z3.Implies(t - qq < 1, e * (1 - (t - qq)) <= z3.RealVal(hi))))
            r, m = self._solve(ctx, conds)
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                break
        res.nonrepro.append({'scenario': scn.name, 'inputs': first[0] if first else None, 'answer': first[1] if first else None, 'fid': fid,
                             'why': (repr(crash)[:200] if crash is not None else [msg for z, msg, k in h.checks if not z3.is_true(z)][:5])})
        return False

    def judge(self, ans):
        if ans.get('invalid') or ans.get('error'):
            return None
        fs = ans.get('failures') or []
        un = [f for f in fs if not f[1]]
        if un:
            return un[0][0], None
        if ans.get('timeout'):
            return 'the operation does not terminate', None
        if ans.get('exception'):
            return 'raised ' + ans['exception'], None
        if fs:
            return fs[0][0], fs[0][1]
        return None

    def sample(self, scn, params, ctx, h, res):
        m = None
        for extra in (_bounded(ctx, 4), []):
            r, m = self._solve(ctx, extra)
            if r == z3.sat:
                break
        if m is None:
            res.notes['no sample model'] += 1
            return
        inp, ufs = inputs_of(m, ctx), ufs_of(m, h)
        cache = {}
        try:
            for c in ctx.pc:
                if not nev(c, inp, ctx.defs, ufs, cache):
                    res.notes['sample skipped: the model needs exp/sqrt values the machine does not give'] += 1
                    return
            exp = []
            for n, f in h.observed:
                exp.append((n, [nev(v.z, inp, ctx.defs, ufs, cache) if isinstance(v, S.Sym) else v for v in f]))
        except (_NoValue, OverflowError) as e:
            res.notes['sample skipped: %s' % e] += 1
            return
        req = {'property': self.prop, 'scenario': scn.name, 'params': params, 'inputs': inp, 'ufs': ufs}
        ans = self.client.ask(req)
        if ans.get('error') or ans.get('invalid'):
            res.notes['sample not runnable: %s' % (ans.get('error') or ans.get('invalid'))] += 1
            return
        bad = self.judge(ans)
        if bad is not None:
            if bad[1]:
                res.known[bad[1]] = dict(req, what=bad[0])
                return
            res.violations.append(dict(req, what=bad[0] + ' [on a path the encoding accepts]', steps=ans.get('steps'), offpath=True))
            return
        obs = ans['observed']
        diff = None
        if len(obs) != len(exp):
            diff = 'number of observations %d vs %d' % (len(exp), len(obs))
        else:
            for (n, a), (n2, b) in zip(exp, obs):
                if n != n2 or len(a) != len(b):
                    diff = '%s/%s lengths %d/%d' % (n, n2, len(a), len(b))
                    break
                for x, y in zip(a, b):
                    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                        if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-5 * (1 + abs(x))):
                            diff = '%s: encoded %r, real %r' % (n, a, b)
                            break
                    elif isinstance(x, str) and isinstance(y, str):
                        if x != y:
                            diff = '%s: encoded %r, real %r' % (n, x, y)
                            break
                if diff:
                    break
        if diff:
            res.sample_bad.append({'scenario': scn.name, 'inputs': inp, 'diff': diff[:600]})
        else:
            res.validated += 1
            if len(res.samples) < 3:
                res.samples.append({'scenario': scn.name, 'inputs': {k: inp[k] for k in list(inp)[:20]}, 'observed': [(n, v[:8]) for n, v in obs[:4]]})


def rq(a, b):
    return z3.RealVal(Fraction(a, b))


# ---------------------------------------------------------------- workers
def _monitor(funcs):
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'symx')
    except ValueError:
        return
    base = os.path.realpath(boot.REPO)

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(base) and '/tests/' not in fn:
            q = code.co_qualname
            if not q.startswith('<'):
                funcs.add('%s:%s' % (os.path.relpath(fn, base), q))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def worker(prop, tier, scns, tasks, results, wid):
    import resource
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(3000)
    funcs = set()
    _monitor(funcs)
    import numpy as np
    client = replay.Client()
    pr = PathRunner(prop, tier, client, funcs)
    nsamp = collections.Counter()
    npath = collections.Counter()
    while True:
        t = tasks.get()
        if t is None:
            break
        si, prefix, budget_n, budget_t = t
        bn0 = budget_n
        scn = scns[si]
        res = Result()
        stack = [prefix]
        t0 = time.time()
        n = 0
        try:
            while stack and n < budget_n and (n == 0 or time.time() - t0 < budget_t) and not res.violations:
                p = stack.pop()
                npath[si] += 1
                k = npath[si]
                want = k <= 2 or (k & (k - 1)) == 0 or k % 50 == 0
                stack += pr.run(scn, p, res, want)
                n += 1
        except BaseException as e:
            res.notes['internal error: %r %s' % (e, traceback.format_exc()[-400:])] += 1
        res.funcs = set(funcs)
        results.put((bn0, si, res, stack, n))
    client.close()


def explore(prop, tier, scns, nworkers=8, wall=600, seed=1, progress=None, stop_on_violation=True):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    tasks, results = ctx.SimpleQueue(), ctx.Queue()
    ws = [ctx.Process(target=worker, args=(prop, tier, scns, tasks, results, i), daemon=True) for i in range(nworkers)]
    for w in ws:
        w.start()
    out = [Result() for _ in scns]
    pend = [collections.deque([[]]) for _ in scns]
    inflight = 0
    issued = [0] * len(scns)     # paths issued
    active = [0] * len(scns)
    ti = 0 if tier == 'quick' else 1
    rng = random.Random(seed)
    t0 = time.time()
    incomplete = {}
    stop = False
    scn_time = [0.0] * len(scns)
    while True:
        # hand out
        while inflight < nworkers + 2 and not stop:
            cands = [i for i in range(len(scns)) if pend[i] and issued[i] < scns[i].max_paths[ti]]
            if not cands:
                break
            if time.time() - t0 > wall:
                break
            i = min(cands, key=lambda j: (active[j], issued[j]))
            d = pend[i]
            if len(d) > 1 and issued[i] > 200:
                k = rng.randrange(len(d))
                d.rotate(-k)
            p = d.popleft()
            room = scns[i].max_paths[ti] - issued[i]
            bn = max(1, min(room, 40 if issued[i] > 8 else 1))
            if len(d) < 3:
                bn = min(bn, 4)
            issued[i] += bn
            active[i] += 1
            tasks.put((i, p, bn, 2.0))
            inflight += 1
        if inflight == 0:
            break
        try:
            bn, si, res, left, n = results.get(timeout=5)
        except Exception:
            dead = [w for w in ws if not w.is_alive()]
            if dead:
                out[0].notes['%d worker(s) died' % len(dead)] += 1
                break
            if time.time() - t0 > wall + 120:
                out[0].notes['wall limit: work in flight was dropped'] += 1
                break
            continue
        inflight -= 1
        active[si] -= 1
        out[si].merge(res)
        out[si].last = time.time() - t0
        issued[si] -= bn - n
        pend[si].extend(left)
        if res.violations and stop_on_violation:
            stop = True
            for d in pend:
                d.clear()
    for i, s in enumerate(scns):
        if pend[i] and not stop:
            incomplete[s.name] = '%d paths explored, %d prefixes left' % (out[i].paths, len(pend[i]))
    for w in ws:
        tasks.put(None)
    for w in ws:
        w.join(timeout=3)
        if w.is_alive():
            w.kill()
    return out, incomplete, time.time() - t0
