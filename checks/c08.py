"""Built-in transformations: domain, inverse, derivative, log jacobian, initialization."""
import math
import numpy as np
from symx.harness import scenario
from paramz import transformations as T
from .lab import flat

# a value where one builds it, its domain, and the interval of inputs away from the clipping limits
KINDS = {
    'Logexp': dict(make=lambda H: T.Logexp(), dom=(0., None), xs=(-20., 20.)),
    'NegativeLogexp': dict(make=lambda H: T.NegativeLogexp(), dom=(None, 0.), xs=(-20., 20.)),
    'Exponent': dict(make=lambda H: T.Exponent(), dom=(0., None), xs=(-20., 20.)),
    'NegativeExponent': dict(make=lambda H: T.NegativeExponent(), dom=(None, 0.), xs=(-20., 20.)),
    'Square': dict(make=lambda H: T.Square(), dom=(0., None), xs=(0.001, 1000.)),
    'Logistic': dict(make=lambda H: None, dom=None, xs=(-20., 20.)),
}
BOUNDS = [(0., 1.), (-1., 3.), (-5., -4.5), (2., 100.)]


def pick(H, arbitrary_bounds=False):
    name = H.pick('transformation', sorted(KINDS))
    k = KINDS[name]
    if name == 'Logistic':
        if arbitrary_bounds:
            lo = H.real('lower', lo=-100, hi=100)
            d = H.real('difference', lo=0.25, hi=100)
            lo, hi = lo, lo + d
        else:
            lo, hi = H.pick('bounds', BOUNDS)
        return name, T.Logistic(lo, hi), (lo, hi), k['xs']
    return name, k['make'](H), k['dom'], k['xs']


def inside(y, dom, closed=False):
    r = True
    if dom[0] is not None:
        r = (y >= dom[0]) if closed else (y > dom[0])
    if dom[1] is not None:
        s = (y <= dom[1]) if closed else (y < dom[1])
        r = s if r is True else r & s
    return r


def at(fn, n=1, i=0, other=()):
    """the function of one element of an array"""
    def g(x):
        a = list(other)
        a.insert(i, x)
        return fn(np.array(a, dtype=float))[i]
    return g


@scenario('domain', bounds='every transformation (Logistic: four pairs of bounds), every real input, arrays of one and two elements', max_paths=(3000, 20000))
def domain(H):
    name, t, dom, xs = pick(H)
    n = H.pick('n', [1, 2])
    x = H.reals('x', n)
    if name == 'Square':
        pass
    a = np.array(x)
    y = t.f(a)
    H.check(tuple(y.shape) == (n,), 'one value per element')
    for v in flat(y):
        H.check(inside(v, dom, closed=True), 'every real is mapped into the domain')
    H.eq(flat(a), x, 'the input is left alone')
    H.observe('y', flat(y))


@scenario('inverse_of_f', bounds='every transformation (Logistic: arbitrary bounds), every input away from the clipping limits, next to another arbitrary element', max_paths=(3000, 20000), timeout=60)
def inverse_of_f(H):
    name, t, dom, xs = pick(H, True)
    x = H.real('x', lo=xs[0], hi=xs[1])
    both = [x]
    i = 0
    if H.bool('two'):
        both = [x, H.real('other', lo=-1000, hi=1000)]
        if H.bool('swap'):
            both, i = both[::-1], 1
    y = t.f(np.array(both))
    H.check(inside(y[i], dom), 'inputs away from the limits are mapped inside the domain')
    H.eq(t.finv(np.array([y[i]]))[0], x, 'the inverse undoes the transformation')
    H.observe('y', y[i])


@scenario('f_of_inverse', bounds='every transformation (Logistic: arbitrary bounds), every value of the domain away from the limits by 1e-3 (and at most 30 in size)', max_paths=(3000, 20000), timeout=60)
def f_of_inverse(H):
    name, t, dom, xs = pick(H, True)
    y = H.real('y', lo=-200, hi=200)
    for b, s in ((dom[0], 1), (dom[1], -1)):
        if b is not None:
            H.assume((y - b) * s >= 1e-3)
    if name != 'Logistic':
        H.assume(y <= 30)
        H.assume(y >= -30)
    a = np.array([y])
    x = t.finv(a)
    H.eq(flat(a), [y], 'the input is left alone')
    H.eq(t.f(np.array(x))[0], y, 'the transformation undoes the inverse')


@scenario('derivative', bounds='every transformation (Logistic: arbitrary bounds), every input away from the clipping limits, arbitrary incoming gradient, alone or next to another element', max_paths=(3000, 20000), timeout=60)
def derivative(H):
    name, t, dom, xs = pick(H, True)
    x = H.real('x', lo=xs[0], hi=xs[1])
    df = H.real('df', lo=-100, hi=100)
    y = t.f(np.array([x]))[0]
    d = H.derivative(at(t.f), x)
    ys, dfs, i = [y], [df], 0
    if H.bool('two'):
        o = t.f(np.array([0.5]))[0]
        ys, dfs = ([y, o], [df, 2.]) if H.bool('first') else ([o, y], [2., df])
        i = 0 if dfs[0] is df else 1
    yy, dd = np.array(ys), np.array(dfs)
    g = t.gradfactor(yy, dd)
    H.eq(g[i], df * d, 'the gradient factor is the gradient times the derivative of the transformation')
    H.eq(flat(yy) + flat(dd), ys + dfs, 'values and gradient are left alone')
    g = t.gradfactor_non_natural(yy, dd)
    H.eq(g[i], df * d, 'and so is the other one')


@scenario('monotone', bounds='every transformation (Logistic: four pairs of bounds): every pair of real inputs (Square: not negative; the exponential ones: both from -35 to 35, both above or both below)', max_paths=(3000, 20000), timeout=60)
def monotone(H):
    name, t, dom, xs = pick(H)
    lo, hi = -1e6, 1e6
    if name == 'Square':
        lo = 0.
    elif name != 'Logistic':
        lo, hi = H.pick('range', [(-35., 35.), (37., 1e6), (-1e6, -37.)])
    x = H.real('x', lo=lo, hi=hi)
    y = H.real('y', lo=lo, hi=hi)
    H.assume(x < y)
    a, b = flat(t.f(np.array([x, y])))
    if name.startswith('Neg'):
        a, b = b, a
    H.check(a <= b, 'a larger input is never mapped to a value before that of a smaller one')


@scenario('large', bounds='Logexp and NegativeLogexp above the overflow limit (inputs 37 to 1e6)', max_paths=(100, 100))
def large(H):
    t = H.pick('t', [T.Logexp, T.NegativeLogexp])()
    x = H.real('x', lo=37, hi=1e6)
    y = t.f(np.array([x]))
    H.check(y[0] > 0 if isinstance(t, T.Logexp) else y[0] < 0, 'mapped into the domain')
    H.eq(t.finv(y)[0], x, 'the inverse undoes the transformation')
    df = H.real('df')
    H.eq(t.gradfactor(y, np.array([df]))[0], df * H.derivative(at(t.f), x), 'the gradient factor is the gradient times the derivative of the transformation')


@scenario('log_jacobian', bounds='every transformation that implements it, every value of the domain from 0.001 to 30 in size: derivative for all values and value at one point', max_paths=(3000, 20000), timeout=60)
def log_jacobian(H):
    name, t, dom, xs = pick(H)
    if type(t).log_jacobian is T.Transformation.log_jacobian:
        return
    y = H.real('y', lo=-30, hi=30)
    for b, s in ((dom[0], 1), (dom[1], -1)):
        if b is not None:
            H.assume((y - b) * s >= 1e-3)
    one = lambda v: t.gradfactor(np.array([v]), np.array([1.]))[0]
    lj = lambda v: np.asarray(t.log_jacobian(np.array([v]))).reshape(-1)[0]
    ref = 0.75 * (-1 if name.startswith('Neg') else 1) if name != 'Logistic' else dom[0] + 0.3 * (dom[1] - dom[0])
    H.eq(lj(ref), math.log(abs(float(one(ref)))), 'the log jacobian is the logarithm of the derivative at a point')
    d = H.derivative(lj, y)
    H.eq(d * one(y), H.derivative(one, y), 'the log jacobian is the logarithm of the derivative everywhere')
    if type(t).log_jacobian_grad is not T.Transformation.log_jacobian_grad:
        H.eq(np.asarray(t.log_jacobian_grad(np.array([y]))).reshape(-1)[0], d, 'the log jacobian comes with its derivative')


@scenario('initialize', bounds='every transformation (Logistic: arbitrary bounds), arrays of one and two arbitrary reals', max_paths=(3000, 20000), timeout=60)
def initialize(H):
    name, t, dom, xs = pick(H, True)
    n = H.pick('n', [1, 2])
    x = H.reals('x', n)
    a = np.array(x)
    y = t.initialize(a)
    for v, w in zip(x, flat(y)):
        H.check(inside(w, dom, closed=True), 'initial values are in the domain')
        H.check(_or(_not(inside(v, dom, closed=True)), w == v), 'values in the domain stay as they are')
    H.eq(flat(a), x, 'the input is left alone')


def _not(a):
    return ~a if not isinstance(a, (bool, np.bool_)) else not a


def _or(a, b):
    return a | b
