"""Caching never changes results."""
import numpy as np
from symx.harness import scenario, Known
from paramz import ObsAr, Param
from paramz.caching import Cacher, Cache_this
from .cachelab import World, Node, CALLS, CHANGES, CONTROL, Boom, R, contents

RELATED = {'X': 'X', 'V': 'X', 'Y': 'Y', 'P': 'P', 'N': 'P', 'list': 'list'}


def call(H, w, c, name, tag):
    H.label('call', name)
    args, kw = w.args(name)
    w.same(c(*args, **kw), args, kw, tag + 'the result is what the function returns for the current contents')


def act(H, w, c, what, tag, failing='YX'):
    H.label(what)
    if what in CHANGES:
        w.change(what)
    elif what == 'reset':
        c.reset()
    elif what == 'disable':
        c.disable_cacher()
    elif what == 'enable':
        c.enable_cacher()
    elif what == 'error':
        w.fail = True
        n = w.runs
        args, kw = w.args(failing)
        try:
            c(*args, **kw)
            H.check(w.runs == n, tag + 'an error of the function reaches the caller')
        except Boom:
            pass
        w.fail = False
    elif what in CALLS:
        call(H, w, c, what, tag)


FEW = ['X', 'XY', 'XX', 'X,b=Y', 'b=X', 'X,1', 'X,list', 'V', 'PN', 'X,force=1']


@scenario('change', bounds='every limit up to 2, a call (quick: 10 of the 23 argument combinations, positional, keyword, numbers, text, none, uncacheable, views, parameters, nodes), one change, control operation or other call, another call',
          quick=dict(limits=[2], L=1), thorough=dict(limits=[0, 1, 2, 3], L=2), max_paths=(20000, 300000))
def change(H, limits, L):
    w = World(H)
    c = Cacher(w.op, H.pick('limit', limits), force_kwargs=('force',))
    first = H.pick('first', FEW if L == 1 else CALLS)
    call(H, w, c, first, 'first: ')
    for i in range(L):
        act(H, w, c, H.pick('act%d' % i, CHANGES + CONTROL + (CALLS if L > 1 else [])), 'between: ', first)
    call(H, w, c, H.pick('last', CALLS), 'last: ')
    H.observe('runs', w.runs)


@scenario('evictions', bounds='limits 1 to 3, every sequence of L calls out of four to six that share arguments, a change, and another call',
          quick=dict(limits=[1, 2], L=3, S=['X', 'XX', 'XY', 'V']), thorough=dict(limits=[1, 2, 3], L=4, S=['X', 'XX', 'XY', 'Y', 'V', 'X,1']), max_paths=(20000, 300000))
def evictions(H, limits, L, S):
    w = World(H)
    c = Cacher(w.op, H.pick('limit', limits))
    for i in range(L):
        call(H, w, c, H.pick('call%d' % i, S), 'before: ')
    act(H, w, c, H.pick('change', ['X.item', 'Y.item', 'X.view']), '')
    call(H, w, c, H.pick('last', S), 'after: ')


@scenario('repeated_changes', bounds='limit 1 to 2, L rounds of a change (or error, or another call) and a call',
          quick=dict(limits=[2], L=2), thorough=dict(limits=[1, 2], L=3), max_paths=(20000, 300000))
def repeated_changes(H, limits, L):
    w = World(H)
    c = Cacher(w.op, H.pick('limit', limits))
    S = ['X', 'XY', 'N', 'X,b=Y']
    for n in S[:2]:
        call(H, w, c, n, 'first: ')
    for i in range(L):
        act(H, w, c, H.pick('act%d' % i, ['X.item', 'X.view', 'Y.item', 'N.all', 'P.item', 'error', 'YX', 'nothing']), 'between: ')
        call(H, w, c, H.pick('call%d' % i, S), 'after: ')


@scenario('failures', bounds='limit 1 to 2, two calls; then a change, a failing call (the same or another one), a change or nothing, and two more calls',
          quick=dict(limits=[2], S=['X', 'XY', 'X,b=Y'], C=['X.item', 'Y.item', 'nothing']), thorough=dict(limits=[1, 2], S=['X', 'XY', 'N', 'X,b=Y', 'V'], C=['X.item', 'X.view', 'Y.item', 'N.all', 'reset', 'nothing']), max_paths=(20000, 300000))
def failures(H, limits, S, C):
    w = World(H)
    c = Cacher(w.op, H.pick('limit', limits))
    a, b = H.pick('first', S), H.pick('second', S)
    call(H, w, c, a, 'first: ')
    call(H, w, c, b, 'first: ')
    act(H, w, c, H.pick('change', C), 'changed: ')
    act(H, w, c, 'error', 'failing: ', H.pick('failing', [a, 'XX'] if b == a else [a, b, 'XX']))
    act(H, w, c, H.pick('change2', C), 'changed again: ')
    for t in ('x', 'y'):
        call(H, w, c, H.pick('last' + t, [a] if b == a else [a, b]), 'after: ')


@scenario('ignored', bounds='one ignored position (0, 1 or 2): only this positional argument is ignored; two calls out of 13 positional and keyword forms, changes and resets in between',
          max_paths=(20000, 20000))
def ignored(H):
    w = World(H)
    ig = H.choice('ignored', 3)
    part = lambda args, kw: (args[:ig] + args[ig + 1:], kw)

    def op(*args, **kw):
        return R(contents(*part(args, kw)))
    c = Cacher(op, 3, ignore_args=(ig,))
    X, Y = w.X, w.Y
    forms = [((X, Y), {}), ((X, 1), {}), ((X, 2), {}), ((X,), {'b': Y}), ((X,), {'b': 1}), ((X,), {'b': 2}), ((X, Y, 1), {}), ((X, Y, 2), {}), ((Y, X, 1), {}), ((Y, X), {}), ((), {'a': X, 'b': Y}), ((), {'a': X, 'b': 2}), ((), {'a': Y, 'b': 2})]
    for t in ('first', 'last'):
        args, kw = H.pick(t, forms)
        w.same(c(*args, **kw), *part(args, kw), 'arguments that are not ignored count')
        if t == 'first':
            k = H.pick('between', ['nothing', 'X.item', 'Y.item', 'reset'])
            if k in CHANGES:
                w.change(k)
            elif k == 'reset':
                c.reset()


VALUES = [1.0, 1.0000001, -1, -2, 0, 2 ** 61 - 1, '1', 'a', 'ab', 'b', 'bc', 'c', '', 'None', None]


@scenario('numbers', bounds='one or two calls with two plain arguments each, out of 15 numbers and texts (values that differ by 1e-7, have the same hash, print alike, join to the same text) and two symbolic numbers, then the call with them exchanged, changed or extended',
          quick=dict(n=11), thorough=dict(n=15), max_paths=(20000, 60000))
def numbers(H, n):
    w = World(H)
    s = H.real('s'), H.real('t')
    # symbolic numbers are compared by value
    pool = VALUES[:n] + list(s)

    def ask(args, kw, t):
        r = c(w.X, *args, **kw)
        want = contents((w.X,), {}) + [v if v is s[0] or v is s[1] else repr(v) for a in args + tuple(kw.values()) for v in [a]]
        H.check(len(r.val) == len(want), t + 'as many values as arguments')
        H.check([x for x in r.val if type(x) is str] == [x for x in want if type(x) is str], t + 'the result belongs to these arguments')
        H.eq([x for x in r.val if type(x) is not str], [x for x in want if type(x) is not str], t + 'the result belongs to these arguments')
    c = Cacher(lambda x, *a, **kw: R(contents((x,), {}) + [v if v is s[0] or v is s[1] else repr(v) for v in a + tuple(kw.values())]), 3)
    u, v = H.pick('u', pool), H.pick('v', pool)
    form = H.choice('form', 3)
    first = [((u,), {}), ((u, v), {}), ((u,), {'k': v})][form]
    last = [((v,), {}), ((v, u), {}), ((v,), {'k': u})][form]
    ask(*first, 'first: ')
    if form == 1 and isinstance(u, str) and isinstance(v, str):
        # texts that join to the same text
        for i in range(len(u + v) + 1):
            ask(((u + v)[:i], (u + v)[i:]), {}, 'joined: ')
        ask((u + v,), {}, 'joined: ')
    ask(*last, 'last: ')
    ask(*first, 'again: ')


class Meth:
    """methods cached by decoration"""
    def __init__(self, w):
        self.w = w
        self.extra = 0

    @Cache_this(limit=2, ignore_args=(0,), force_kwargs=('force',))
    def f(self, x, y=None, force=None):
        """doc of f"""
        self.w.runs += 1
        if self.w.fail:
            raise Boom()
        return R(contents((x, y), {}) + [repr(self.extra), repr(force)])

    @Cache_this(limit=1)
    def g(self, x):
        return R(contents((x,), {}) + ['g', repr(self.extra)])


@scenario('methods', bounds='two objects with decorated methods: every history of L calls (positional, keyword, defaults, forced) and changes on either object; caches of objects and methods are separate; the cache of an object can be disabled, enabled and reset',
          quick=dict(L=2, n=4), thorough=dict(L=3, n=7), max_paths=(20000, 300000))
def methods(H, L, n):
    w = World(H)
    a, b = Meth(w), Meth(w)
    X, Y = w.X, w.Y
    b.extra = 7     # state of another object must not leak
    a.f(X)
    b.f(X, Y)
    calls = [((X,), {}), ((X, Y), {}), ((X,), {'y': Y}), ((Y,), {}), ((), {'y': X, 'x': Y}), ((X, None), {}), ((X, w.listarg), {})][:n]
    for i in range(L):
        what = H.pick('op%d' % i, ['change', 'disable', 'enable', 'reset', 'error', 'g'])
        H.label(what)
        if what == 'change':
            w.change(H.pick('change%d' % i, ['X.item', 'Y.item', 'X.view']))
        elif what == 'error':
            w.fail = True
            H.raises(Boom, lambda: a.f(ObsAr(np.array([1.])), X), 'an error of the function reaches the caller')
            w.fail = False
        elif what == 'g':
            # the object itself is no cacheable argument, so this is computed
            a.extra += 1
            r = a.g(X)
            w.same(R([x for x in r.val[:-2]]), (X,), {}, 'methods do not mix')
            H.check(r.val[-2:] == ['g', repr(a.extra)], 'a method of an object that cannot be cached is computed')
            a.extra -= 1
        else:
            getattr(a.cache, {'disable': 'disable_caching', 'enable': 'enable_caching', 'reset': 'reset'}[what])()
        o = a if i < L - 1 else H.pick('obj%d' % i, [a, b])
        k = H.choice('call%d' % i, len(calls) + 1)
        if k == len(calls):
            n = w.runs
            r = o.f(X, force=3)
            H.check(w.runs == n + 1, 'a forced keyword always computes')
            H.check(r.val[-1] == '3', 'a forced keyword reaches the function')
            w.same(R(r.val[:-2]), (X, None), {}, 'forced: ')
            o.f(X, None, 3)
            H.check(w.runs == n + 2, 'a forced argument always computes')
            continue
        args, kw = calls[k]
        r = o.f(*args, **kw)
        x = args[0] if args else kw['x']
        y = args[1] if len(args) > 1 else kw.get('y')
        w.same(R(r.val[:-2]), (x, y), {}, 'the result is what the function returns for the current contents')
        H.check(r.val[-2:] == [repr(o.extra), 'None'], 'the result belongs to the object')
    H.check(Meth.f.__name__ == 'f' and Meth.f.__doc__ == 'doc of f', 'name and documentation are kept')


class Kern(Node):
    """the typical use: a method of a node which depends on its parameters"""
    runs = 0

    @Cache_this(limit=3)
    def K(self, X, Z=None):
        self.__class__.runs += 1
        return R(contents((self, X, Z), {}))

    @Cache_this(limit=2, ignore_args=(0,))
    def data(self, X):
        return R(contents((X,), {}))


@scenario('node_methods', bounds='a node with two parameters below a root with another one; a method which depends on the node, called before and after L changes: writing any parameter anywhere, at every level, linking, unlinking, moving, renaming, constraining, fixing, copying or loading (and then changing either), switching caching off or on for the whole hierarchy or the node',
          quick=dict(L=1), thorough=dict(L=2), max_paths=(20000, 200000))
def node_methods(H, L):
    import copy
    import pickle
    X = ObsAr(np.array(H.reals('x', 1)))
    Z = ObsAr(np.array(H.reals('z', 1)))
    r, k = Node('r'), Kern('k')
    a, b, d, e = [Param(n, np.array(H.reals(n, 1 + (n == 'a')))) for n in 'abde']
    k.link_parameters(a, b)
    r.link_parameters(d, k)

    restructured, Kern.runs = False, 0

    def look(t):
        kn = Known('K4', restructured)
        for o in [k] + others:
            for args in ((X,), (X, Z)):
                want = contents((o,) + args + (None,) * (2 - len(args)), {})
                for again in range(2):
                    got = o.K(*args)
                    H.check(len(got.val) == len(want), t + 'as many values as the node has elements now', kn)
                    if len(got.val) != len(want):
                        continue
                    H.eq([v for v in got.val if type(v) is not str], [v for v in want if type(v) is not str], t + 'the result is what the method returns for the current state', kn)
            got, want = o.data(X), contents((X,), {})
            H.eq([v for v in got.val if type(v) is not str], [v for v in want if type(v) is not str], t + 'methods that ignore their node')
    others = []
    look('first: ')
    for i in range(L):
        t = 'c%d_' % i
        act = H.pick(t + 'act', ['a', 'a.item', 'a.part', 'k', 'k.slice', 'r', 'r.regexp', 'optimizer', 'k.attr', 'd', 'X', 'Z', 'link', 'unlink', 'move', 'rename', 'constrain', 'fix', 'copy', 'copy_node', 'load', 'off', 'k.off', 'on', 'off_updates'])
        H.label(act)
        v = H.real(t + 'v')
        if act == 'a':
            a[:] = v
        elif act == 'a.item':
            a[1] = v
        elif act == 'a.part':
            s = a[1:]
            s *= v
        elif act == 'k':
            k[:] = v
        elif act == 'k.slice':
            k[1:] = v
        elif act == 'r':
            r[:] = v
        elif act == 'r.regexp':
            r['.*(a|d)'] = v
        elif act == 'optimizer':
            r.optimizer_array = np.array([v] * len(r.optimizer_array))
        elif act == 'k.attr':
            k.b = v
        elif act == 'd':
            d[:] = v
        elif act == 'X':
            X[0] = v
        elif act == 'Z':
            Z += v
        elif act == 'link':
            if not e.has_parent():
                k.link_parameter(e, H.pick(t + 'at', [None, 0])) if H.bool(t + 'given') else k.link_parameter(e)
        elif act == 'unlink':
            if a.has_parent():
                k.unlink_parameter(a)
        elif act == 'move':
            if b.has_parent() and b._parent_ is k:
                k.link_parameter(b, 0)
        elif act == 'rename':
            k.name = 'other'
        elif act == 'constrain':
            k.constrain_positive(warning=False) if H.bool(t + 'node') else a.unconstrain()
        elif act == 'fix':
            k.fix(v)
        elif act in ('copy', 'copy_node', 'load'):
            src = k if act == 'copy_node' else r
            q = copy.deepcopy(src) if act == 'load' and H.bool(t + 'deep') else (pickle.loads(pickle.dumps(src)) if act == 'load' else src.copy())
            o = q if src is k else next(c for c in q.parameters if isinstance(c, Kern))
            others.append(o)
            look('copied: ')
            (o if H.bool(t + 'changed') else k)[:] = v
        elif act == 'off':
            r.disable_caching()
        elif act == 'k.off':
            k.disable_caching()
        elif act == 'on':
            r.enable_caching()
        else:
            # changes count that are made while updates are on
            r.update_model(False)
            d[:] = v
            r.update_model(True)
        restructured = act in ('link', 'unlink', 'move') or restructured and act not in ('k', 'k.slice', 'r', 'off', 'k.off')
        look('after: ')
    n = Kern.runs
    if act in ('off', 'k.off'):
        k.K(X)
        H.check(Kern.runs == n + 1, 'without caching every call runs')
    H.observe('runs', n)
