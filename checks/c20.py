"""Numerical failures are tolerated a bounded number of times."""
import contextlib, io
import numpy as np
from numpy.linalg import LinAlgError
from symx.harness import scenario
from .lab import flat, free_elems, Twice
from .modlab import UF, uf_model, expected, Script, set_elem, put

SPEC = ('root', [('a', 2), ('n', [('b', 1)])])
NUMERICAL = [LinAlgError, ZeroDivisionError, ValueError]
OTHER = [RuntimeError, KeyError, TypeError, AttributeError, KeyboardInterrupt]
BOUND = {'grads': 1e100, 'both': 1e10}


class Failing(UF):
    """fails when told so: fail = place -> exception"""
    fail = {}

    def parameters_changed(self):
        if 'update' in self.fail:
            raise self.fail['update']
        super(Failing, self).parameters_changed()
        if 'late' in self.fail:
            raise self.fail['late']

    def objective_function(self):
        if 'objective' in self.fail:
            raise self.fail['objective']
        return super(Failing, self).objective_function()


def make(H, full=True):
    lab = uf_model(H, SPEC, cls=Failing)
    set_elem(lab, 'a', 0, Twice())
    if full and H.bool('fixed'):
        set_elem(lab, 'a', 1, None, True)
    lab.root.fail = {}
    return lab


def inf_p(v):
    return isinstance(v, float) and v == float('inf')


def clipped(H, got, want, L, msg):
    got = flat(got)
    H.check(len(got) == len(want), msg + ': one gradient per free element')
    for g, w in zip(got, want):
        H.check((g <= L) & (g >= -L), msg + ': clipped')
        H.check((w > L) | (w < -L) | (g == w), msg + ': the gradients are the ones of the model')
        H.check(((w <= L) | (g == L)) & ((w >= -L) | (g == -L)), msg + ': larger ones are cut')


class Monitor:
    """the specification: how many more failures are tolerated"""

    def __init__(self, H, lab, allowed):
        self.H, self.lab, self.m, self.allowed, self.row = H, lab, lab.root, allowed, 0

    def step(self, k, ev, outcome, exc, call=None):
        """one evaluation at an arbitrary point; returns False when the error reached the caller"""
        H, lab, m = self.H, self.lab, self.m
        x = H.reals('x%s_' % k, len(free_elems(lab.elems())))
        place = None if outcome == 'ok' or (outcome == 'objective' and ev == 'grads') else outcome
        m.fail = {} if place is None else {place: exc}
        fn = call or {'objective': m._objective, 'grads': m._grads, 'both': m._objective_grads}[ev]
        put(lab, x)
        F, g, tg = expected(H, lab)
        caught = None
        try:
            got = fn(np.array(x))
        except BaseException as e:
            if e is not exc or place is None:
                raise
            caught = e
        m.fail = {}
        numerical = isinstance(exc, tuple(NUMERICAL))
        if place is not None and (not numerical or self.row >= self.allowed):
            H.check(caught is exc, 'the error reaches the caller')
            return False
        H.check(caught is None, 'the failure is tolerated')
        if caught is not None:
            return False
        if place is None:
            self.row = 0
            if ev != 'grads':
                H.eq(got[0] if ev == 'both' else got, F, 'the objective at the point')
            if ev != 'objective':
                H.eq(flat(got[1] if ev == 'both' else got), tg, 'the gradients at the point')
            return True
        self.row += 1
        if ev != 'grads':
            v = got[0] if ev == 'both' else got
            H.check(inf_p(v), 'the optimizer sees an infinite objective')
        if ev != 'objective':
            gr = got[1] if ev == 'both' else got
            L = BOUND[ev]
            if place == 'update':
                H.check(len(flat(gr)) == len(x), 'one gradient per free element')
                for v in flat(gr):
                    H.check((v <= L) & (v >= -L), 'the gradients are clipped')
            else:
                clipped(H, gr, tg, L, ev)
        return True

    def recover(self, k):
        """evaluations work as ever afterwards"""
        self.step(k, 'both', 'ok', None)
        self.lab.check('afterwards: ')


@scenario('sequences', bounds='every sequence of N evaluations (objective, gradients, both), each succeeding or failing in the update (before or after the gradients) or in the objective, 0 to A failures tolerated; arbitrary points, values and gradients; constrained, fixed and free elements',
          quick=dict(N=3, A=1, outcomes=['ok', 'update', 'late', 'objective']), thorough=dict(N=4, A=2, outcomes=['ok', 'update', 'late', 'objective']), max_paths=(6000, 200000))
def sequences(H, N, A, outcomes):
    lab = make(H, False)
    allowed = H.choice('allowed', A + 1)
    lab.root._allowed_failures = allowed
    mon = Monitor(H, lab, allowed)
    exc = ValueError('numerical')
    for k in range(N):
        ev = H.pick('eval%d' % k, ['objective', 'grads', 'both'])
        out = H.pick('outcome%d' % k, outcomes)
        H.assume(not (ev == 'grads' and out == 'objective'))
        if not mon.step(k, ev, out, exc):
            H.check(mon.row == allowed, 'only after the allowed number')
            break
    mon.recover('end')


@scenario('kinds', bounds='every kind of numerical error (linear algebra, division by zero, value) and other kinds (runtime, key, type, attribute, keyboard interrupt), at every place and evaluation, first or after a tolerated failure')
def kinds(H):
    lab = make(H)
    lab.root._allowed_failures = 2
    mon = Monitor(H, lab, 2)
    T = H.pick('kind', NUMERICAL + OTHER)
    if H.bool('after'):
        mon.step('pre', 'both', 'objective', ValueError('first'))
    ev = H.pick('eval', ['objective', 'grads', 'both'])
    out = H.pick('place', ['update', 'late', 'objective'])
    H.assume(not (ev == 'grads' and out == 'objective'))
    mon.step('it', ev, out, T('this'))
    mon.recover('end')


@scenario('default', bounds='the default number of tolerated failures: 0 to 11 failures in a row, then a success, then failures until the error reaches the caller; three patterns of evaluations')
def default(H):
    lab = make(H, False)
    mon = Monitor(H, lab, 10)
    pat = H.pick('pattern', [('objective',), ('grads',), ('both', 'objective', 'grads')])
    out = H.pick('place', ['late', 'update'])
    n = H.choice('failures', 12)
    exc = LinAlgError('numerical')
    for k in range(n):
        mon.step(k, pat[k % len(pat)], out, exc)
    mon.step('ok', pat[-1], 'ok', exc)
    for k in range(11):
        mon.step('again%d' % k, pat[k % len(pat)], out, exc)
    mon.recover('end')


@scenario('optimizing', bounds='an optimizer making up to N evaluations of any kind, each succeeding or failing, A failures tolerated: what it sees, and the error reaching the caller of optimize',
          quick=dict(N=2, A=[0, 1]), thorough=dict(N=4, A=[0, 1, 2]), max_paths=(3000, 50000))
def optimizing(H, N, A):
    lab = make(H)
    allowed = H.pick('allowed', A)
    lab.root._allowed_failures = allowed
    mon = Monitor(H, lab, allowed)
    exc = ZeroDivisionError('numerical')
    out = []

    class Done(Exception):
        pass

    def script(x0, f_fp, f, fp):
        for k in range(N):
            ev = H.pick('eval%d' % k, ['objective', 'grads', 'both'])
            o = H.pick('outcome%d' % k, ['ok', 'late', 'update'])

            def call(x, fn={'objective': f, 'grads': fp, 'both': f_fp}[ev]):
                return fn(x)
            if not mon.step(k, ev, o, exc, call):
                raise exc
        return np.array(out0), 0.
    out0 = H.reals('opt', len(free_elems(lab.elems())))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            lab.root.optimize(optimizer=Script(script))
        H.check(len(lab.root.optimization_runs) == 1, 'recorded')
        put(lab, out0)
    except ZeroDivisionError as e:
        H.check(e is exc, 'the error reaches the caller of optimize')
        H.check(mon.row == allowed and lab.root.optimization_runs == [], 'only after the allowed number')
    mon.recover('end')
