"""Optimizing and restarting leave the model at the right place."""
import contextlib, io
import numpy as np
from symx.harness import scenario
from symx.boot import stub_scipy
import paramz.model as model_module
from .lab import flat, free_elems, Twice, Flip, pos_of
from .modlab import uf_model, Script, Recip, set_elem, put

SPEC = ('root', [('a', (2, 1)), ('n', [('b', 1)])])


class Boom(Exception):
    pass


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def start_model(H, states=None):
    lab = uf_model(H, SPEC)
    if states is None:
        j = H.choice('fixed', 4)
        for k, (l, i) in enumerate((('a', 0), ('a', 1), ('b', 0))):
            set_elem(lab, l, i, Recip() if k == 1 and j != 3 else None, k == j)
    return lab


def check_at(H, lab, w, tag):
    put(lab, w)
    lab.check(tag)
    H.eq(flat(lab.root.optimizer_array), w, tag + 'the optimizer vector is the reported optimum')
    vals = [e.v for e in lab.elems()]
    H.eq(flat(lab.root.gradient), [H.uf('G%d' % i, *vals) for i in range(len(vals))], tag + 'the model is up to date')


def one_run(H, lab, j, outcomes=('fresh', 'start', 'inplace', 'last', 'fail'), values=('any',), evals=True):
    """script of run j -> (script, record)"""
    n = len(free_elems(lab.elems()))
    rec = {}
    out = H.pick('outcome%d' % j, outcomes)
    w = H.reals('w%d_' % j, n, nonzero=True)
    val = H.pick('value%d' % j, values)
    fo = H.real('fopt%d' % j) if val == 'any' else {'nan': float('nan'), 'inf': float('inf')}[val]

    def script(x0, f_fp, f, fp):
        rec['start'] = list(flat(x0))
        x = x0
        if evals:
            e = np.array(H.reals('e%d_' % j, n, nonzero=True))
            f_fp(e)
            lab.root.optimizer_array
            H.eq(flat(x0), rec['start'], 'evaluating does not change the starting vector')
            f(x0 if out == 'start' else e)
        if out == 'fail':
            raise Boom('run %d' % j)
        if out == 'fresh':
            x = np.array(w)
        elif out == 'inplace':
            x0[:] = np.array(w)
        elif out == 'last':
            x = e if evals else np.array(w)
        rec['x'] = list(flat(x))
        rec['f'] = fo
        return x, fo
    rec['out'] = out
    return script, rec


@scenario('optimize', bounds='model of three elements on two levels with a constrained, a fixed and a free element (or no fix): one run of an optimizer that evaluates anywhere and returns a new vector, its start, its start changed in place, or fails; given or own start; optimizer object or name', max_paths=(3000, 20000))
def optimize(H):
    lab = start_model(H)
    m = lab.root
    n = len(free_elems(lab.elems()))
    vals = [e.v for e in lab.elems()]
    script, rec = one_run(H, lab, 0)
    s = H.reals('s', n, nonzero=True) if H.bool('given_start') else None
    off = H.bool('updates_off')
    if off:
        m.update_model(False)
    start = flat(m.optimizer_array)
    kw = {} if s is None else {'start': np.array(s)}
    by_name = H.bool('by_name')
    if by_name:
        stub_scipy('fmin_l_bfgs_b', lambda f_fp, x0, **k: (script(x0, f_fp, lambda x: f_fp(x)[0], lambda x: f_fp(x)[1])[0], 0., {'funcalls': 2, 'warnflag': 0, 'task': ''}))
    else:
        kw['optimizer'] = Script(script)
    if rec['out'] == 'fail':
        H.raises(Boom, lambda: quiet(lambda: m.optimize(**kw)), 'a failing optimizer')
        H.check(m.optimization_runs == [], 'a failed run is not recorded')
        H.check(m.update_model(), 'updates are on')
        for e, v in zip(lab.elems(), vals):
            if e.fixed:
                k = lab.elems().index(e)
                H.eq(flat(m.param_array)[k], v, 'fixed elements are unchanged')
        return
    opt = quiet(lambda: m.optimize(**kw))
    H.eq(rec['start'], start if s is None else s, 'the optimizer starts at the current or given vector')
    H.check(m.update_model(), 'updates are on')
    check_at(H, lab, rec['x'], 'after optimizing: ')
    H.check(len(m.optimization_runs) == 1 and m.optimization_runs[0] is opt, 'the run is recorded')
    H.eq(flat(opt.x_opt), rec['x'], 'the recorded optimum is the reported one')
    if by_name:
        H.eq(opt.f_opt, H.uf('F', *[e.v for e in lab.elems()]), 'the recorded objective is the one at the optimum')
    # the record does not follow the model
    m.optimizer_array = np.array(H.reals('later', n, nonzero=True))
    m.optimizer_array
    H.eq(flat(opt.x_opt), rec['x'], 'the recorded optimum does not change with the model')


@scenario('nothing_free', bounds='models without free elements or without parameters: optimize and restarts leave everything alone')
def nothing_free(H):
    lab = uf_model(H, SPEC)
    how = H.choice('how', 4)
    if how == 0:
        lab.root.fix()
    elif how == 1:
        for l in lab.leaves():
            lab.o[l].fix()
    elif how == 2:
        for l, i in (('a', 0), ('a', 1), ('b', 0)):
            set_elem(lab, l, i, Recip(), True)
    else:
        from .modlab import UF

        class E(UF):
            pass
        E.H = H
        lab.root = E('empty')
    m = lab.root
    if H.bool('updates_off'):
        m.update_model(False)
    before = flat(m.param_array) if m.size else []
    up = m.update_model()

    def script(*a):
        raise Boom('called')
    robust = H.bool('robust')
    if H.bool('restarts'):
        quiet(lambda: m.optimize_restarts(num_restarts=H.choice('num', 3), robust=robust, optimizer=Script(script), verbose=H.bool('verbose')))
    else:
        quiet(lambda: m.optimize(optimizer=Script(script)))
    H.check(m.optimization_runs == [], 'no run is recorded')
    H.eq(flat(m.param_array) if m.size else [], before, 'the values are left alone')
    H.check(m.update_model() == up, 'the update setting is left alone')


def is_best(H, fs, k):
    """run k has the smallest value among the successful runs, numbers before not-a-number"""
    r = True
    for i, v in enumerate(fs):
        if i == k or v is None:
            continue
        if _nan(v):
            continue
        if _nan(fs[k]):
            return False
        c = fs[k] <= v
        r = c if r is True else r & c
    return r


def _nan(v):
    return isinstance(v, float) and v != v


def restarts_check(H, lab, m, recs, initial, before, shared=None):
    ok = [r for r in recs if r['out'] != 'fail']
    H.check(len(m.optimization_runs) == before + len(ok), 'every successful run is recorded')
    for o, r in zip(m.optimization_runs[before:], ok):
        H.eq(flat(o.x_opt), r['x'], 'every record keeps the optimum of its run')
        H.eq(o.f_opt, r['f'], 'every record keeps the objective of its run')
    if not ok:
        check_at(H, lab, initial, 'all failed: ')
        return
    now = flat(m.optimizer_array)
    fs = [r['f'] for r in ok]
    found = False
    for k, r in enumerate(ok):
        c = is_best(H, fs, k)
        for a, b in zip(now, r['x']):
            c = (a == b) if c is True else c & (a == b)
        found = c if found is False else found | c
    H.check(found, 'the model is at the best of the runs')
    # fixed elements and consistency
    put(lab, now)
    lab.check('after restarts: ')


@scenario('restarts', bounds='1 to R runs, each with an arbitrary (or infinite, or not-a-number) reported value at an arbitrary vector, its start, its start changed in place, or failing; failures tolerated or not; an earlier run with any value; one optimizer object or a name',
          quick=dict(R=2, outcomes=['fresh', 'start', 'fail'], values=['any', 'nan'], shared=[0, 1]), thorough=dict(R=3, outcomes=['fresh', 'start', 'inplace', 'fail'], values=['any', 'nan', 'inf'], shared=[0, 1]), max_paths=(3000, 60000))
def restarts(H, R, outcomes, values, shared):
    lab = start_model(H, 'given')
    set_elem(lab, 'a', 0, None, H.bool('fix'))
    set_elem(lab, 'b', 0, Twice())
    m = lab.root
    n = len(free_elems(lab.elems()))
    before = 0
    if H.bool('earlier'):
        w = np.array(H.reals('earlier_w', n, nonzero=True))
        fv = H.real('earlier_f')
        m.optimize(optimizer=Script(lambda *a: (w, fv)))
        put(lab, flat(w))
        before = 1
    num = 1 + H.choice('runs', R)
    runs = [one_run(H, lab, j, outcomes, values, evals=False) for j in range(num)]
    initial = flat(m.optimizer_array)
    robust = H.bool('robust')
    it = iter(runs)
    calls = []

    def script(*a):
        s, r = next(it)
        calls.append(r)
        return s(*a)
    kw = dict(num_restarts=num, robust=robust, verbose=H.bool('verbose'))
    if H.pick('shared', shared):
        kw['optimizer'] = Script(script)
    else:
        model_module.optimization.get_optimizer = lambda name: lambda max_iters=0, **k: Script(script, max_iters=max_iters)
    failed = [k for k, (s, r) in enumerate(runs) if r['out'] == 'fail']
    if failed and not robust:
        H.raises(Boom, lambda: quiet(lambda: m.optimize_restarts(**kw)), 'a failing run')
        H.check(len(calls) == failed[0] + 1, 'the failure reaches the caller at once')
        H.check(len(m.optimization_runs) == before + failed[0], 'runs before the failure are recorded')
        return
    quiet(lambda: m.optimize_restarts(**kw))
    H.check(len(calls) == num, 'as many runs as asked for')
    H.eq(calls[0]['start'], initial, 'the first run starts at the current values')
    H.check(m.update_model(), 'updates are on')
    restarts_check(H, lab, m, [r for s, r in runs], initial, before)


class Pool:
    """in-process stand-in for multiprocessing.Pool"""
    def __init__(self, processes=None):
        pass

    def map(self, f, args):
        return [f(a) for a in args]

    def close(self):
        pass
    join = terminate = close


@scenario('parallel', bounds='the same with parallel runs (worker processes replaced by calls in the same process, on the copies the code makes)',
          quick=dict(R=2, outcomes=['fresh', 'fail'], values=['any', 'nan']), thorough=dict(R=3, outcomes=['fresh', 'start', 'fail'], values=['any', 'nan', 'inf']), max_paths=(3000, 60000))
def parallel(H, R, outcomes, values):
    lab = start_model(H, 'given')
    set_elem(lab, 'a', 0, None, True)
    set_elem(lab, 'b', 0, Twice())
    m = lab.root
    runs = [one_run(H, lab, j, outcomes, values, evals=False) for j in range(R)]
    initial = flat(m.optimizer_array)
    robust = H.bool('robust')
    it = iter(runs)

    def make(max_iters=0, **k):
        s, r = next(it)
        return Script(s, max_iters=max_iters)
    model_module.optimization.get_optimizer = lambda name: make
    saved, model_module.mp = model_module.mp, type('mp', (), {'Pool': Pool})
    try:
        kw = dict(num_restarts=R, robust=robust, verbose=H.bool('verbose'), parallel=True)
        if any(r['out'] == 'fail' for s, r in runs) and not robust:
            H.raises(Boom, lambda: quiet(lambda: m.optimize_restarts(**kw)), 'a failing run')
            return
        quiet(lambda: m.optimize_restarts(**kw))
    finally:
        model_module.mp = saved
    restarts_check(H, lab, m, [r for s, r in runs], initial, 0)
