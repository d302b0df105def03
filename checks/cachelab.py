"""A cached function whose result is the current contents of its arguments."""
import weakref
import numpy as np
from paramz import ObsAr, Param, Parameterized
from paramz.caching import Cacher, Cache_this, FunctionCache


class Boom(Exception):
    pass


class R:
    """a result"""
    live = []

    def __init__(self, val):
        self.val = val
        R.live.append(weakref.ref(self))

    @staticmethod
    def alive():
        R.live = [r for r in R.live if r() is not None]
        return len(R.live)


class Node(Parameterized):
    pass


def content(a):
    if isinstance(a, Parameterized):
        return ['node'] + np.asarray(a.param_array).reshape(-1).tolist()
    if isinstance(a, np.ndarray):
        return ['array'] + np.asarray(a).reshape(-1).tolist()
    return [type(a).__name__, repr(a)]


def contents(args, kw):
    out = []
    for a in args:
        out += content(a)
    for k in sorted(kw):
        out += [k] + content(kw[k])
    return out


class World:
    def __init__(self, H):
        R.live = []
        self.H = H
        self.runs = 0
        self.fail = False
        self.n = 0
        self.X = ObsAr(np.array(H.reals('x', 2)))
        self.Y = ObsAr(np.array(H.reals('y', 1)))
        self.V = self.X[0:1]
        self.P = Param('p', np.array(H.reals('p', 2)))
        self.N = Node('n')
        self.N.link_parameter(self.P)
        self.big, self.small = 1234.5, 2
        self.listarg = [1]

    def op(self, *args, **kw):
        self.runs += 1
        if self.fail:
            raise Boom()
        return R(contents(args, kw))

    def args(self, name):
        X, Y, V, P, N = self.X, self.Y, self.V, self.P, self.N
        return {'X': ((X,), {}), 'Y': ((Y,), {}), 'XY': ((X, Y), {}), 'YX': ((Y, X), {}), 'XX': ((X, X), {}),
                'X,b=Y': ((X,), {'b': Y}), 'a=X,b=Y': ((), {'a': X, 'b': Y}), 'a=Y,b=X': ((), {'a': Y, 'b': X}),
                'b=Y,a=X': ((), {'b': Y, 'a': X}), 'b=X': ((), {'b': X}), 'c=X': ((), {'c': X}), 'X,b=None': ((X,), {'b': None}),
                'X,1': ((X, self.big), {}), 'X,2': ((X, self.small), {}), 'X,None': ((X, None), {}), 'X,s': ((X, 's'), {}),
                'X,list': ((X, self.listarg), {}), 'V': ((V,), {}), 'XV': ((X, V), {}), 'P': ((P,), {}), 'N': ((N,), {}), 'PN': ((P, N), {}), 'none': ((), {}),
                'X,force=1': ((X,), {'force': 1}), 'X,force=None': ((X,), {'force': None})}[name]

    def change(self, name):
        H = self.H
        v = H.real('v%d' % self.n)
        self.n += 1
        if name == 'X.item':
            self.X[1] = v
        elif name == 'X.all':
            self.X[:] = v
        elif name == 'X.iadd':
            self.X += v
        elif name == 'X.view':
            self.X[0:1][:] = v
        elif name == 'X.viewmul':
            s = self.X[1:2]
            s *= v
        elif name == 'V':
            self.V[0] = v
        elif name == 'Y.item':
            self.Y[0] = v
        elif name == 'Y.imul':
            self.Y *= v
        elif name == 'P.item':
            self.P[0] = v
        elif name == 'P.view':
            self.P[1:][:] = v
        elif name == 'N.all':
            self.N[:] = v
        elif name == 'N.optimizer':
            self.N.optimizer_array = np.array([v] * len(self.N.optimizer_array))
        elif name == 'N.attr':
            self.N.p = v
        elif name == 'P.fixed':
            self.P.fix(v)
        elif name == 'list':
            self.listarg.append(1)
        else:
            raise KeyError(name)

    def same(self, r, args, kw, msg):
        H, want = self.H, contents(args, kw)
        H.check([type(x) is str for x in r.val] == [type(x) is str for x in want] and [x for x in r.val if type(x) is str] == [x for x in want if type(x) is str], msg)
        H.eq([x for x in r.val if type(x) is not str], [x for x in want if type(x) is not str], msg)


CALLS = ['X', 'XY', 'YX', 'XX', 'X,b=Y', 'a=X,b=Y', 'a=Y,b=X', 'b=X', 'c=X', 'X,b=None', 'X,1', 'X,2', 'X,None', 'X,s', 'X,list', 'V', 'XV', 'P', 'N', 'PN', 'none', 'X,force=1', 'X,force=None']
CHANGES = ['X.item', 'X.all', 'X.iadd', 'X.view', 'X.viewmul', 'V', 'Y.item', 'Y.imul', 'P.item', 'P.view', 'N.all', 'N.optimizer', 'N.attr', 'P.fixed', 'list']
CONTROL = ['reset', 'disable', 'enable', 'error', 'nothing']
