"""Scaled conjugate gradients: counts, best value, status, for every objective."""
import numpy as np
from symx.harness import scenario
from paramz.optimization.scg import SCG
from .lab import flat


class Oracle:
    """an arbitrary objective: every evaluation returns an arbitrary value"""

    def __init__(self, H, n, special=()):
        self.H, self.n, self.special = H, n, special
        self.fx, self.fv, self.gx, self.gv = [], [], [], []

    args = ()

    def f(self, x, *args):
        self.H.check(args == self.args, 'the objective gets the additional arguments')
        k = len(self.fv)
        self.fx.append(list(flat(x)))
        v = self.H.real('f%d' % k)
        if k in self.special:
            s = self.H.choice('special%d' % k, 3)
            v = [v, float('inf'), float('nan')][s]
        self.fv.append(v)
        return v

    def g(self, x, *args):
        self.H.check(args == self.args, 'the gradient gets the additional arguments')
        k = len(self.gv)
        self.gx.append(list(flat(x)))
        v = self.H.reals('g%d_' % k, self.n)
        self.gv.append(v)
        return np.array(v)


def run(H, n, iters, special=(), **kw):
    o = Oracle(H, n, special)
    if 'optargs' in kw:
        o.args = kw['optargs']
    x0 = H.farray('x', n)
    start = flat(x0)
    x, flog, neval, status = SCG(o.f, o.g, x0, maxiters=iters, **kw)
    H.check(neval == len(o.fv) + len(o.gv), 'evaluations are reported')
    H.check(len(flog) - 1 <= iters, 'within the allowed number of iterations')
    H.check(len(flog) == len(o.fv), 'one logged value per iteration')
    H.eq(flat(x0), start, 'the starting point is not changed')
    return o, flat(x), flog, status


def is_at(o, x, v):
    """some evaluation was at x and gave v"""
    r = False
    for p, w in zip(o.fx, o.fv):
        ok = True
        for a, b in zip(p, x):
            ok = (a == b) if ok is True else ok & (a == b)
        ok = ok & (w == v)
        r = ok if r is False else r | ok
    return r


WORDS = ['maxiter exceeded', 'converged - relative reduction in objective', 'converged - relative stepsize', 'converged - relative reduction in gradient']


def k_of(status):
    return WORDS.index(status) if status in WORDS else 0


def status_ok(H, o, x, flog, status, iters, ftol, xtol, gtol):
    n = len(flog) - 1
    prev = o.fx[0]
    for i in range(n):
        v, last = o.fv[i + 1], i == n - 1
        if not bool(v <= flog[i]):
            continue
        step = [a - b for a, b in zip(o.fx[i + 1], prev)]
        prev = o.fx[i + 1]
        if last and k_of(status) in (1, 2):
            continue
        d = v - flog[i]
        H.check((d >= ftol) | (-d >= ftol), 'it goes on only when the objective changed by the tolerance')
        c = False
        for a in step:
            c = ((a >= xtol) | (-a >= xtol)) if c is False else c | (a >= xtol) | (-a >= xtol)
        H.check(c, 'it goes on only when the step is as large as the tolerance')
        if not (last and k_of(status) == 3):
            c = False
            for g, p in zip(o.gv, o.gx):
                t = sum(q * q for q in g) > gtol
                for a, b in zip(p, prev):
                    t = t & (a == b)
                c = t if c is False else c | t
            H.check(c, 'it goes on only when the squared gradient is above the tolerance')
    H.check(status in WORDS, 'a known status')
    k = k_of(status)
    if k == 0:
        H.check(n == iters, 'out of iterations only after the allowed number')
        return
    H.check(n >= 1 or k == 3, 'converged after an iteration, or by the gradient')
    H.eq(o.fx[-1], x, 'converged at the last point tried')
    if k == 1:
        d = flog[-1] - flog[-2]
        H.check((d < ftol) & (-d < ftol), 'the objective changed by less than the tolerance')
    elif k == 2:
        # the point before: the last accepted one
        prev = o.fx[0]
        for p, v, c in zip(o.fx[1:-1], o.fv[1:-1], flog[:-2]):
            if bool(v <= c):
                prev = p
        for a, b in zip(x, prev):
            H.check((a - b < xtol) & (b - a < xtol), 'the step is less than the tolerance')
    else:
        H.eq(o.gx[-1], x, 'the last gradient is the one at the point')
        H.check(sum(g * g for g in o.gv[-1]) <= gtol, 'the squared gradient is at most the tolerance')


@scenario('any', bounds='every objective and gradient (arbitrary values at every evaluation), n parameters, up to K iterations, arbitrary tolerances: counts, logged values, status',
          quick=dict(sizes=[[1, 2], [2, 1]]), thorough=dict(sizes=[[1, 3], [2, 1], [3, 1]]), max_paths=(3000, 30000), timeout=120)
def any_(H, sizes):
    n, K = H.pick('n', sizes)
    tol = dict(ftol=H.real('ftol', lo=0), xtol=H.real('xtol', lo=0), gtol=H.real('gtol', lo=0))
    iters = H.choice('iters', K + 1)
    o, x, flog, status = run(H, n, iters, **tol)
    H.check(is_at(o, x, flog[-1]), 'the last logged value is the objective at the returned point')
    for a, b in zip(flog, flog[1:]):
        H.check(b <= a, 'the logged values do not get worse')
    status_ok(H, o, x, flog, status, iters, **tol)
    H.observe('status', status)
    H.observe('x', x)


@scenario('defaults', bounds='every objective and gradient, one parameter, up to K iterations, default tolerances', quick=dict(K=2), thorough=dict(K=4), max_paths=(3000, 30000), timeout=120)
def defaults(H, K):
    iters = H.choice('iters', K + 1)
    o, x, flog, status = run(H, 1, iters)
    H.check(is_at(o, x, flog[-1]), 'the last logged value is the objective at the returned point')
    for a, b in zip(flog, flog[1:]):
        H.check(b <= a, 'the logged values do not get worse')
    status_ok(H, o, x, flog, status, iters, 1e-6, 1e-6, 1e-5)


@scenario('failing', bounds='objectives that are infinite or not a number at any of the evaluations, one parameter, up to K iterations', quick=dict(K=2), thorough=dict(K=3), max_paths=(3000, 30000), timeout=120)
def failing(H, K):
    iters = H.choice('iters', K + 1)
    o, x, flog, status = run(H, 1, iters, special=range(K + 1))
    seen = [i for i, v in enumerate(o.fv) if _same(v, flog[-1])]
    ok = False
    for i in seen:
        c = True
        for a, b in zip(o.fx[i], x):
            c = (_same(a, b)) if c is True else c & _same(a, b)
        ok = c if ok is False else ok | c
    H.check(ok, 'the last logged value is the objective at the returned point')
    best = flog[0]
    for b in flog[1:]:
        if best == best:
            H.check(b == b and bool(b <= best), 'the logged values do not get worse')
        best = b


def _same(a, b):
    if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        return isinstance(a, float) and isinstance(b, float) and a != a and b != b
    return a == b


@scenario('stationary', bounds='a start where the gradient is zero: no evaluation away from the start or a step, the start is returned')
def stationary(H):
    n = H.choice('n', 2) + 1
    o = Oracle(H, n)
    x0 = H.farray('x', n)
    vals = flat(x0)
    o.g = lambda x: (o.gx.append(list(flat(x))), o.gv.append([0.] * n), np.zeros(n))[2]
    x, flog, neval, status = SCG(o.f, o.g, x0, maxiters=2)
    H.check(neval == len(o.fv) + len(o.gv), 'evaluations are reported')
    H.eq(flat(x), vals, 'the start is returned')
    H.check(status.startswith('converged'), 'converged')
    H.check(flog[-1] == o.fv[0], 'the value at the start is logged last')
    for p in o.fx + o.gx:
        H.check(all(a == a for a in p), 'evaluated at numbers only')


@scenario('arguments', bounds='additional arguments for the objective and the gradient, one parameter, up to one iteration', max_paths=(3000, 30000), timeout=120)
def arguments(H):
    iters = H.choice('iters', 2)
    args = H.pick('args', [(), (3.,), (3., 'x')])
    o, x, flog, status = run(H, 1, iters, optargs=args)
    H.check(is_at(o, x, flog[-1]), 'the last logged value is the objective at the returned point')


@scenario('quadratic', bounds='every objective a/2 x^2 of one parameter, one iteration: the step gets closer to the minimum and does not overshoot', timeout=120)
def quadratic(H):
    o = Oracle(H, 1)
    a = H.real('a', lo=0.01, hi=100)

    def f(x):
        x = flat(x)
        v = a * x[0] * x[0] / 2.
        o.fx.append(x)
        o.fv.append(v)
        return v

    def g(x):
        x = flat(x)
        v = [a * x[0]]
        o.gx.append(x)
        o.gv.append(v)
        return np.array(v)
    x0 = H.farray('x', 1)
    x, flog, neval, status = SCG(f, g, x0, maxiters=1, xtol=0., ftol=0., gtol=0.)
    H.check(neval == len(o.fv) + len(o.gv), 'evaluations are reported')
    H.eq(flat(x), o.fx[-1], 'every step is accepted')
    for p, q in zip(o.fx, o.fx[1:]):
        r = q[0] / p[0]
        H.check((r >= 0.) & (r < 1.), 'every step gets closer to the minimum and does not overshoot')


@scenario('direction', bounds='every objective, gradients of two parameters at the tried points from a few and with an arbitrary curvature along the direction, up to K iterations: every step goes along the conjugate direction '
          '(Polak-Ribiere), or the negative gradient at the start, after as many successes as parameters, and where the conjugate direction does not descend', quick=dict(cases=[[2, 3, 1], [3, 2, 0]]), thorough=dict(cases=[[3, 3, 1], [4, 2, 0]]), max_paths=(3000, 30000), timeout=120)
def direction(H, cases):
    K, some, curved = H.pick('case', cases)
    n = 2
    o = Oracle(H, n)
    x0 = H.farray('x', n)
    grads = []

    def g(x):
        k, p = len(o.gv), flat(x)
        if k == 0 or all(bool(a == b) for a, b in zip(p, o.fx[-1])):
            v = H.reals('g%d_' % k, n)
            for a, b in zip(v, H.pick('g%d' % k, GRADIENTS[:some])):
                H.assume(a == b)
            grads.append((p, v))
        else:
            c = H.real('c%d' % k, lo=-2., hi=2.) if curved else 1.
            v = [a + c * (b - e) for a, b, e in zip(grads[-1][1], p, grads[-1][0])]
        o.gx.append(p)
        o.gv.append(v)
        return np.array(v)
    x, flog, neval, status = SCG(o.f, g, x0, maxiters=1 + H.choice('iters', K), xtol=0., ftol=0., gtol=0.)
    dot = lambda a, b: sum(p * q for p, q in zip(a, b))
    at, best, count, used = o.fx[0], o.fv[0], 0, 0
    gr = grads[0][1]
    d = [-a for a in gr]
    for p, v in zip(o.fx[1:], o.fv[1:]):
        step = [a - b for a, b in zip(p, at)]
        H.eq(step[0] * d[1], step[1] * d[0], 'the step is along the direction')
        H.check(dot(step, gr) < 0., 'the step descends')
        if not bool(v <= best):
            continue
        used += 1
        if used == len(grads):
            break
        at, best, count = p, v, count + 1
        old, gr = gr, grads[used][1]
        gamma = dot([a - b for a, b in zip(old, gr)], gr) / dot(d, old)
        if count == n:
            count, d = 0, [-a for a in gr]
        else:
            d = [gamma * a - b for a, b in zip(d, gr)]
            if bool(dot(d, gr) >= 0.):
                d = [-a for a in gr]


GRADIENTS = [(1., 0.), (-5., 12.), (3., 4.)]
