"""Watching an optimization does not influence it."""
import contextlib, io, re, time
import numpy as np
from symx.harness import scenario
from symx import boot
import paramz.optimization.verbose_optimization as vo_module
from paramz.optimization.verbose_optimization import VerboseOptimization
from .lab import flat, free_elems, Twice
from .modlab import uf_model, UF, Script, set_elem

SPEC = ('root', [('a', 1), ('n', [('b', 1)])])


class Boom(Exception):
    pass


class Fragile(UF):
    """the objective of the state computed at the last update; it fails for large first values"""
    def parameters_changed(self):
        UF.parameters_changed(self)
        self.cur = flat(self.param_array)
        self.steps = getattr(self, 'steps', []) + [list(self.cur)]

    cur = ()

    def objective_function(self):
        self.asked = getattr(self, 'asked', 0) + 1
        if self.fails is not None and bool(self.cur[0] > 5.):
            raise self.fails('no value here')
        return self.H.uf('F', *self.cur)
    fails = None


class Clock:
    """a clock whose readings are whatever the harness says"""
    def __init__(self, readings):
        self.readings, self.n = readings, 0

    def __call__(self):
        self.n += 1
        return self.readings(self.n - 1)


@contextlib.contextmanager
def clock(c):
    """the displays read the time from c"""
    class T:
        pass
    t = T()
    for k in dir(time):
        setattr(t, k, getattr(time, k))
    old = {}
    funs = ('time', 'perf_counter', 'monotonic')
    for k in funs:
        setattr(t, k, c)
    for k, v in list(vars(vo_module).items()):
        if v is time or any(v is getattr(time, f) for f in funs):
            old[k] = v
            setattr(vo_module, k, t if v is time else c)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(vo_module, k, v)


def run(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            return f(), None, out
        except (Boom, ValueError, ZeroDivisionError, IndexError, np.linalg.LinAlgError) as e:
            return None, type(e).__name__, out


def observers(m):
    return [(p, type(o).__name__) for p, o, _ in m.observers]


def plan(H, K, kinds, t=''):
    """what the optimizer does: K evaluations of some kind anywhere, then return or fail"""
    kind = [H.pick('%skind%d' % (t, k), kinds) for k in range(K)]
    pts = [H.reals('%sp%d_' % (t, k), 2) for k in range(K)]
    end = H.pick(t + 'end', ['return', 'start', 'fail'])
    w = H.reals(t + 'w', 2)
    fo = H.real(t + 'fopt')
    H.label(*(kind + [end]))

    def script_for(log):
        def script(x0, f_fp, f, fp):
            log.append(('start', flat(x0)))
            for k, p in zip(kind, pts):
                x = np.array(p)
                if k == 'both':
                    a, b = f_fp(x)
                    log.append(('both', [a] + flat(b)))
                elif k == 'f':
                    log.append(('f', [f(x)]))
                else:
                    log.append(('fp', flat(fp(x))))
            if end == 'fail':
                raise Boom()
            return (x0 if end == 'start' else np.array(w)), fo
        return script
    return script_for


def is_inf(x):
    return isinstance(x, float) and x in (float('inf'), -float('inf'))


def same(H, a, b, tag):
    H.check(len(a) == len(b), tag)
    for (k, u), (l, v) in zip(a, b):
        H.check(k == l and len(u) == len(v), tag)
        for x, y in zip(u, v):
            if is_inf(x) or is_inf(y):
                H.check(is_inf(x) and is_inf(y), tag)
            else:
                H.eq(y, x, tag)


@scenario('same', bounds='model of two elements; an optimizer that evaluates objective and gradient at up to K arbitrary points, returns anything or fails; the objective fails or not depending on the point; arbitrary clock readings; messages off and on',
          quick=dict(K=2, kinds=['both', 'f'], errors=['none', 'value'], walk=False), thorough=dict(K=3, kinds=['both', 'f', 'fp'], errors=['none', 'value', 'linalg'], walk=True), max_paths=(6000, 100000))
def watch(H, K, kinds, errors, walk):
    H.formatting(False)
    error = {'none': None, 'value': ValueError, 'linalg': np.linalg.LinAlgError}[H.pick('error', errors)]
    worlds = []
    for on in (False, True):
        lab = uf_model(H, SPEC, Fragile) if not worlds else clone(H, worlds[0])
        worlds.append(lab)
    if H.bool('twice'):
        for l in worlds:
            set_elem(l, 'a', 0, Twice())
    make = plan(H, K, kinds)
    fast = H.bool('fast')
    res = []
    for on, lab in zip((False, True), worlds):
        m = lab.root
        m.fails = m.__class__.fails = None
        m.update_model(True)
        m.fails = m.__class__.fails = error
        m.steps = []
        log, before, draws = [], observers(m), H.random_draws()
        opt = Script(make(log))
        c = Clock(lambda n: 0.01 * n if fast else 10. * n)
        with clock(c):
            r, exc, out = run(lambda: m.optimize(opt, messages=on))
        H.check(observers(m) == before, 'the model is not observed any more afterwards')
        H.eq(H.random_draws(), draws, 'watching uses up no random numbers')
        n = c.n
        res.append((log, exc, m, opt, r is opt))
        o2 = io.StringIO()
        with contextlib.redirect_stdout(o2), clock(c):
            m.fails = m.__class__.fails = None
            m.update_model(True)
        H.check(o2.getvalue() == '' and c.n == n, 'nothing is displayed afterwards')
    (l0, e0, m0, o0, r0), (l1, e1, m1, o1, r1) = res
    H.check(e0 == e1, 'the same failure, or none')
    same(H, l0, l1, 'the same points with the same results')
    H.check(r0 == r1, 'the same optimizer is returned')
    H.eq(flat(m1.param_array), flat(m0.param_array), 'the same parameters')
    H.eq(flat(m1.gradient), flat(m0.gradient), 'the same gradient')
    H.check(len(m0.optimization_runs) == len(m1.optimization_runs), 'the same recorded runs')
    H.check(m0._fail_count == m1._fail_count, 'the same number of failures')
    H.check(o0.status == o1.status, 'the same status')
    if e0 is None:
        H.eq(flat(o1.x_opt), flat(o0.x_opt), 'the same optimum')
        H.eq(o1.f_opt, o0.f_opt, 'the same optimal value')
    H.check(len(m0.steps) == len(m1.steps), 'the model is updated as often')
    for u, v in zip(m0.steps, m1.steps):
        H.eq(v, u, 'the model is updated with the same values')


def clone(H, lab):
    from paramz import Param
    from .lab import Lab, Node, Elem
    new = Lab.__new__(Lab)
    new.H, new.o, new.ref, new.kids, new.parent = H, {}, {}, dict(lab.kids), dict(lab.parent)
    new.cls, new.root_cls, new.rootname = lab.cls, lab.root_cls, lab.rootname

    def make(nm):
        if nm in lab.ref:
            new.ref[nm] = [Elem(e.v) for e in lab.ref[nm]]
            new.o[nm] = Param(nm, np.array([e.v for e in lab.ref[nm]]).reshape(lab.o[nm].shape))
        else:
            new.o[nm] = (lab.root_cls if nm == lab.rootname else lab.cls)(nm)
            for k in lab.kids[nm]:
                new.o[nm].link_parameter(make(k))
        return new.o[nm]
    new.root = make(lab.rootname)
    return new


@scenario('started', bounds='the objective fails where the optimization is started from, or not; given start or not; messages off and on',
          quick=dict(), thorough=dict(), max_paths=(2000, 10000))
def started(H):
    H.formatting(False)
    error = {'value': ValueError, 'linalg': np.linalg.LinAlgError, 'zero': ZeroDivisionError}[H.pick('error', ['value', 'linalg', 'zero'])]
    lab = uf_model(H, SPEC, Fragile)
    labs = [lab, clone(H, lab)]
    make = plan(H, 1, ['both', 'f', 'fp'])
    given = H.reals('s', 2) if H.bool('given') else None
    res = []
    for on, l in zip((False, True), labs):
        l.root.fails = error
        l.root.__class__.fails = error
        log, before = [], observers(l.root)
        r, exc, out = run(lambda: l.root.optimize(Script(make(log)), messages=on, start=None if given is None else np.array(given)))
        H.check(observers(l.root) == before, 'the model is not observed any more afterwards')
        res.append((log, exc))
    H.check(res[0][1] == res[1][1], 'the same failure, or none')
    same(H, res[0][0], res[1][0], 'the same points with the same results')
    H.eq(flat(labs[1].root.param_array), flat(labs[0].root.param_array), 'the same parameters')


class Level(UF):
    """the same value and gradient everywhere"""
    def parameters_changed(self):
        self.gradient[:] = 2.

    def objective_function(self):
        return 1.


@scenario('restarts', bounds='two or three restarts, one of which may fail, robust, with messages off and on: numbers drawn, starting points and results',
          quick=dict(R=2), thorough=dict(R=3), max_paths=(3000, 20000))
def restarts(H, R):
    H.formatting(False)
    lab = uf_model(H, SPEC, Level)
    fails = [H.bool('fails%d' % j) for j in range(R)]
    evals = H.pick('evals', [0, 2])
    used = []
    for on, l in zip((False, True), [lab, clone(H, lab)]):
        runs = []

        def script(x0, f_fp, f, fp):
            j = len(runs)
            runs.append(flat(x0))
            for k in range(evals):
                f_fp(x0 + float(k))
            if fails[j]:
                raise Boom()
            return x0, float(j)
        d = H.random_draws()
        before = observers(l.root)
        r, exc, out = run(lambda: l.root.optimize_restarts(R, robust=True, verbose=False, optimizer=Script(script), messages=on))
        H.check(exc is None, 'robust restarts do not fail')
        H.check(observers(l.root) == before, 'the model is not observed any more afterwards')
        used.append((H.random_draws() - d, len(runs), len(l.root.optimization_runs)))
    H.check(used[0] == used[1], 'the same draws, runs and recorded runs')


@scenario('many', bounds='thirty evaluations of a concrete model with slow and fast clock: random numbers used up', quick=dict(), thorough=dict(), max_paths=(500, 2000))
def many(H):
    H.formatting(False)
    lab = uf_model(H, ('root', [('a', 1)]))
    step = H.pick('step', [0.001, 2., 4000., 100000.])
    used = []
    for on, l in zip((False, True), [lab, clone(H, lab)]):
        def script(x0, f_fp, f, fp):
            for k in range(30):
                f(x0)
            return x0, 0.
        d = H.random_draws()
        with clock(Clock(lambda n: step * n)):
            run(lambda: l.root.optimize(Script(script), messages=on))
        used.append(H.random_draws() - d)
    H.check(used[0] == used[1], 'watching uses up no random numbers')


@scenario('runtime', bounds='every elapsed time from zero to 100 days: the displayed run time', quick=dict(), thorough=dict(), max_paths=(2000, 10000), timeout=60)
def runtime(H):
    boot.integers(vo_module)
    H.formatting(True, unequal=False)
    lab = uf_model(H, ('root', [('a', 1)]), Level)
    start = H.real('start', lo=0, hi=10 ** 9)
    sec = H.real('seconds', lo=0, hi=100 * 86400)
    readings = [start, start + sec]
    opt = Script(None)
    opt.status = 'done'
    out = io.StringIO()
    with contextlib.redirect_stdout(out), clock(Clock(lambda n: readings[min(n, 1)])):
        with VerboseOptimization(lab.root, opt, maxiters=10, verbose=True, ipython_notebook=False):
            pass
    text = re.search(r'Runtime:\s*(\S+)', out.getvalue()).group(1)
    units = {'d': 8640000, 'h': 360000, 'm': 6000, 's': 100}     # in hundredths of a second
    parts = re.findall(r'([0-9.]+)([dhms]?)', text)
    H.check(''.join(a + b for a, b in parts) == text and len(parts) >= 2, 'the run time consists of numbers and units')
    order = ['d', 'h', 'm', 's', '']
    names = [u for _, u in parts]
    first = order.index(names[0])
    full = order[first:first + len(parts)]
    H.check(all(u == v or u == '' for u, v in zip(names, full)), 'the units follow each other')
    total, unit = 0, None
    for k, ((a, u), v) in enumerate(zip(parts, full)):
        x = H.number(a)
        unit = units.get(v, 1)
        total = total + x * unit
        if k:
            H.check(x < {'h': 24, 'm': 60, 's': 60, '': 100}[v], 'no unit runs over into the next')
        H.check(x >= 0, 'no unit is negative')
    eps, sec = 0 if H.mode == 'sym' else 1, sec * 100
    # the last unit shown is rounded down
    H.check(total <= sec + eps, 'the run time is the elapsed time')
    H.check(sec < total + unit + eps, 'the run time is the elapsed time, to the last unit shown')
    H.check(sec >= 8640000 if names[0] == 'd' else sec < 8640000, 'days are shown if there are any')
