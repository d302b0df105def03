"""The gradient check accepts right gradients and rejects wrong ones."""
import contextlib, io
import numpy as np
from paramz import Model
from symx.harness import scenario
from .lab import Lab, Twice, Flip, flat
from .modlab import set_elem

FACTOR = {Twice: 2., Flip: -1.}


class Quad(Model):
    """objective k + sum c d + q d^2/2, reported gradient c + q d + e, where d is the
    distance from the point o at which the gradient is checked"""
    k = c = q = e = o = None

    def parameters_changed(self):
        if self.e is not None:
            v = np.array(self.d())
            self.gradient[:] = np.array(self.c) + np.array(self.q) * v + np.array(self.e)

    def d(self):
        return [x - o for x, o in zip(flat(self.param_array), self.o)]

    def objective_function(self):
        v = self.d()
        return self.k + sum(c * x + q * x * x / 2. for c, q, x in zip(self.c, self.q, v))


def decorate(H, lab, options):
    """a choice of constraint/fix for every element"""
    for l in lab.leaves():
        for i in range(len(lab.ref[l])):
            s = H.pick('%s%d_is' % (l, i), options)
            if s == 'fix':
                set_elem(lab, l, i, None, True)
            elif s == 'twice':
                set_elem(lab, l, i, Twice())
            elif s == 'flip':
                set_elem(lab, l, i, Flip())


def target(H, lab, names):
    """(object with checkgrad, elements)"""
    t = H.pick('target', names)
    if t == 'concat':
        return lab.root['.*(a|b)'], lab.elems('a') + lab.elems('b')
    if t == 'slice':
        return lab.o['a'][1:], lab.elems('a')[1:]
    return lab.o[t], lab.elems(t)


def both(c, d):
    return d if c is True else c if d is True else c & d


def run(H, lab, t, verbose, step, tol):
    m = lab.root
    before = flat(m.param_array)
    kw = {}
    if step is not None:
        kw['step'] = step
    if tol is not None:
        kw['tolerance'] = tol
    with contextlib.redirect_stdout(io.StringIO()):
        r = t.checkgrad(verbose=verbose, **kw)
    H.eq(flat(m.param_array), before, 'the parameters keep their values')
    lab.check('after the check: ')
    H.eq(flat(m.gradient), [c + e for c, e in zip(m.c, m.e)], 'the model is up to date')
    return bool(r)


def build(H, spec, quad, options, wide=True):
    """wide: arbitrary slopes and objective values, otherwise slopes between 0.5 and 10
    (downwards for odd elements) and objective values around 1000"""
    H.formatting(False)
    lab = Lab(H, spec, root_cls=Quad)
    n = len(lab.elems())
    decorate(H, lab, options)
    m = lab.root
    m.o = flat(m.param_array)
    if wide:
        m.k = H.real('k')
        m.c = H.reals('c', n)
        m.q = [H.real('q%d' % i) if i < quad else 0. for i in range(n)]
    else:
        m.k = 1000.
        m.c = [H.real('c%d' % i, lo=.5, hi=10.) * (-1. if i % 2 else 1.) for i in range(n)]
        m.q = [H.real('q%d' % i, lo=-1., hi=1.) if i < quad else 0. for i in range(n)]
    return lab


SPEC2 = ('root', [('a', 2)])
SPEC3 = ('root', [('a', 2), ('n', [('b', 1)])])
SPEC4 = ('root', [('a', 2), ('n', [('b', 2)])])
SPECS = {2: SPEC2, 3: SPEC3, 4: SPEC4}


def refresh(lab):
    lab.root.parameters_changed()


B = 'every element free, constrained by either map or fixed; the model, a node, parameter, slice or concatenation checked; '


def right(H, sizes, quad, options, verbose):
    spec = SPECS[H.pick('size', sizes)]
    lab = build(H, spec, quad, options, not verbose)
    m = lab.root
    names = [n for n in lab.nodes()] + (['concat', 'slice'] if len(lab.leaves()) > 1 else ['slice'])
    t, el = target(H, lab, names)
    m.e = [0. if any(x is y for y in el) else H.real('e%d' % i) for i, x in enumerate(lab.elems())]
    refresh(lab)
    r = run(H, lab, t, verbose, H.pick('step', [None, 0.5]), None)
    H.check(r is True, 'right gradients are accepted')


@scenario('right', bounds='arbitrary linear (and in one element quadratic) objectives of n elements with right gradients for the checked elements and arbitrary wrong ones elsewhere; ' + B + 'every draw of signs; default or large step',
          quick=dict(sizes=[2, 3], quad=1, options=['free', 'twice', 'fix']), thorough=dict(sizes=[2, 3, 4], quad=1, options=['free', 'twice', 'flip', 'fix']), max_paths=(6000, 100000), timeout=10)
def right_plain(H, sizes, quad, options):
    right(H, sizes, quad, options, False)


@scenario('right_verbose', bounds='the same with the verbose check',
          quick=dict(sizes=[3], quad=0, options=['free', 'twice', 'fix']), thorough=dict(sizes=[3, 4], quad=1, options=['free', 'twice', 'flip', 'fix']), max_paths=(6000, 100000), timeout=10)
def right_verbose(H, sizes, quad, options):
    right(H, sizes, quad, options, True)


def wrong(H, sizes, quad, options, tols, verbose):
    spec = SPECS[H.pick('size', sizes)]
    lab = build(H, spec, quad, options, not verbose)
    m = lab.root
    names = [n for n in lab.nodes()] + (['concat', 'slice'] if len(lab.leaves()) > 1 else ['slice'])
    t, el = target(H, lab, names)
    checked = [i for i, x in enumerate(lab.elems()) if any(x is y for y in el) and not x.fixed]
    H.assume(len(checked) > 0)
    bad = H.pick('wrong', checked)
    tol = H.pick('tolerance', tols)
    e = H.real('error')
    m.e = [0.] * len(m.c)
    m.e[bad] = e
    refresh(lab)
    T = 1e-3 if tol is None else tol
    T = T * 1.125
    f = [1. if x.con is None else FACTOR[type(x.con)] for x in lab.elems()]
    ef = abs(e * f[bad])
    tot = 0.
    for i in ([bad] if verbose else checked):
        tot = tot + abs((m.c[i] + m.e[i]) * f[i])
    H.assume((ef > T) & (ef > T * tot))
    r = run(H, lab, t, verbose, None, tol)
    H.check(r is False, 'a wrong gradient is rejected')


@scenario('wrong', bounds='the same with one checked element whose gradient is wrong by more than the tolerance (absolute, and relative to the gradients checked along with it), tolerance given or default, plain check',
          quick=dict(sizes=[2, 3], quad=0, options=['free', 'twice', 'fix'], tols=[None]), thorough=dict(sizes=[2, 3, 4], quad=1, options=['free', 'twice', 'flip', 'fix'], tols=[None, 0.125]), max_paths=(6000, 100000), timeout=10)
def wrong_plain(H, sizes, quad, options, tols):
    wrong(H, sizes, quad, options, tols, False)


@scenario('wrong_verbose', bounds='the same with the verbose check',
          quick=dict(sizes=[3], quad=0, options=['free', 'twice', 'fix'], tols=[None]), thorough=dict(sizes=[3, 4], quad=1, options=['free', 'twice', 'flip', 'fix'], tols=[None, 0.125]), max_paths=(6000, 100000), timeout=10)
def wrong_verbose(H, sizes, quad, options, tols):
    wrong(H, sizes, quad, options, tols, True)


@scenario('nothing', bounds='targets without free elements pass, whatever the gradients; plain and verbose')
def nothing(H):
    lab = build(H, SPEC3, 0, ['free'])
    m = lab.root
    t = H.pick('target', ['root', 'a', 'n', 'b'])
    lab.o[t].fix()
    for x in lab.elems(t):
        x.fixed = True
    m.e = H.reals('e', 3)
    refresh(lab)
    H.check(run(H, lab, lab.o[t], H.bool('verbose'), None, None) is True, 'nothing to check')


@scenario('verdict', bounds='verbose check of every element with arbitrary errors: exactly when ratio or difference of every element is within the tolerance; one element with arbitrary objective values, or n with slopes of both signs between 0.5 and 10', quick=dict(n=2), thorough=dict(n=3), max_paths=(4000, 30000))
def verdict(H, n):
    n = H.pick('n', [1, n])
    lab = build(H, ('root', [('a', n)]), 0, ['free'], n == 1)
    m = lab.root
    m.e = H.reals('e', n)
    refresh(lab)
    tol = 0.25
    r = run(H, lab, lab.root, True, 0.5, tol)
    sure, maybe = True, True
    for i in range(n):
        d, a = abs(m.e[i]), abs(m.c[i] + m.e[i])
        sure = both(sure, (d < tol * .9) | (d < tol * .9 * a))
        maybe = both(maybe, (d < tol * 1.1) | (d < tol * 1.1 * a))
    if r:
        H.check(maybe, 'accepted: every element is within the tolerance')
    else:
        H.check(~sure if not isinstance(sure, bool) else not sure, 'rejected: some element is outside the tolerance')


@scenario('again', bounds='linear objectives of three elements; one element fixed or constrained, any part checked; then another element instead, any part checked again, right or with one wrong gradient; plain and verbose',
          quick=dict(targets=['root', 'a', 'b']), thorough=dict(targets=['root', 'a', 'n', 'b', 'slice', 'concat']), max_paths=(30000, 120000), timeout=10)
def again(H, targets):
    lab = build(H, SPEC3, 0, ['free'], False)
    m = lab.root
    names = [('a', 0), ('a', 1), ('b', 0)]
    verbose = H.bool('verbose')
    for k in range(2):
        l, i = H.pick('which%d' % k, names)
        fx = H.bool('fix%d' % k)
        set_elem(lab, l, i, None if fx else Twice(), fx)
        H.label(l, i, fx)
        t = H.pick('target%d' % k, targets)
        t, el = {'slice': lambda: (lab.o['a'][1:], lab.ref['a'][1:]), 'concat': lambda: (m['.*(a|b)'], lab.elems()[:3])}.get(t, lambda: (lab.o[t], lab.elems(t)))()
        m.o = flat(m.param_array)
        bad = H.choice('wrong%d' % k, 4) if k else 3
        m.e = [0.] * 3
        if bad < 3:
            m.e[bad] = H.real('error', lo=200., hi=1000.)
        refresh(lab)
        r = run(H, lab, t, verbose, None, None)
        want = not any(lab.elems()[j] is x and j == bad and not x.fixed for x in el for j in range(3))
        H.check(r is want, 'right gradients are accepted' if want else 'a wrong gradient is rejected')
        p = lab.o[l]
        (p.unfix if fx else p.unconstrain)()
        lab.ref[l][i].con, lab.ref[l][i].fixed = None, False
