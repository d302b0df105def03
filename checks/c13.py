"""Caching is effective and bounded."""
import weakref
import numpy as np
from symx.harness import scenario
from paramz import ObsAr
from paramz.caching import Cacher, Cache_this
from .cachelab import World, Boom, R, CHANGES

SAME = {'b=Y,a=X': 'a=X,b=Y', 'X,force=None': 'X,force=None'}
USES = {'X': 'X', 'XX': 'X', 'Y': 'Y', 'XY': 'XY', 'YX': 'XY', 'X,1': 'X', 'a=X,b=Y': 'XY', 'P': 'P', 'N': 'N', 'PN': 'PN', 'X,s': 'X', 'none': '', 'X,None': 'X'}
TOUCH = {'X.item': 'X', 'X.view': 'X', 'Y.item': 'Y', 'P.item': 'PN', 'N.all': 'PN'}


class Kept:
    """results a cache of this limit keeps: oldest computed first out"""
    def __init__(self, limit):
        self.limit, self.keys, self.fresh = limit, [], {}

    def hit(self, k):
        return k in self.keys and self.fresh[k]

    def ran(self, k):
        if not self.limit:
            return
        if k not in self.keys:
            if len(self.keys) == self.limit:
                del self.fresh[self.keys.pop(0)]
            self.keys.append(k)
        self.fresh[k] = True

    def touched(self, args):
        for k in self.keys:
            if any(a in USES[k] for a in args):
                self.fresh[k] = False

    def clear(self):
        self.keys, self.fresh = [], {}


def regs(w, c, a):
    return len([1 for _, o, _ in getattr(w, a).observers if o is c])


def state(H, w, c, k, tag):
    H.check(R.alive() <= k.limit, tag + 'at most the limit of results is kept')
    H.check(R.alive() <= len(k.keys), tag + 'dropped results are not kept alive')
    used = set(a for q in k.keys for a in USES[q])
    for a in 'XYPN':
        if a not in used:
            H.check(regs(w, c, a) == 0, tag + 'arguments without a kept result are not observed')


def call(H, w, c, k, name, tag):
    H.label('call', name)
    key = SAME.get(name, name)
    n, hit = w.runs, k.hit(key)
    args, kw = w.args(name)
    r = c(*args, **kw)
    w.same(r, args, kw, tag + 'the result is right')
    if hit:
        H.check(w.runs == n, tag + 'a kept result is not computed again')
    H.check(w.runs <= n + 1, tag + 'a call runs the function at most once')
    if w.runs > n:
        k.ran(key)
    elif not hit:
        H.check(False, tag + 'a result that is not kept is computed')
    del r
    state(H, w, c, k, tag)


@scenario('kept', bounds='every limit up to 3, every sequence of L calls out of N argument combinations, changes of arguments, errors, resets, disabling',
          quick=dict(limits=[1, 2], L=4, calls=['X', 'XY', 'XX'], acts=['X.item', 'Y.item', 'error', 'reset', 'disable']),
          thorough=dict(limits=[0, 1, 2, 3], L=5, calls=['X', 'XY', 'XX', 'Y', 'a=X,b=Y', 'b=Y,a=X', 'X,1'], acts=['X.item', 'Y.item', 'X.view', 'error', 'reset', 'disable']), max_paths=(20000, 300000))
def kept(H, limits, L, calls, acts):
    w = World(H)
    limit = H.pick('limit', limits)
    c = Cacher(w.op, limit)
    k = Kept(limit)
    for i in range(L):
        what = H.pick('op%d' % i, calls + acts)
        if what in TOUCH:
            w.change(what)
            k.touched(TOUCH[what])
        elif what == 'error':
            w.fail = True
            Z = ObsAr(np.array([1.]))
            H.raises(Boom, lambda: c(Z), 'an error of the function reaches the caller')
            w.fail = False
            z = weakref.ref(Z)
            del Z
            H.check(z() is None, 'the argument of a failed call is not kept alive')
            k.clear()
        elif what == 'reset':
            c.reset()
            k.clear()
            H.check(R.alive() == 0, 'nothing is kept after a reset')
        elif what == 'disable':
            c.disable_cacher()
            H.check(R.alive() == 0, 'nothing is kept after disabling')
            c.enable_cacher()
            k.clear()
        else:
            call(H, w, c, k, what, 'step: ')
        state(H, w, c, k, 'step: ')
    for name in calls:
        call(H, w, c, k, name, 'at the end: ')


@scenario('kinds', bounds='limit 0 or 2: two calls out of 14 argument combinations (positional, keyword in any order, numbers, text, none, views, parameters, nodes), a change, the calls again, twice',
          quick=dict(), thorough=dict(), max_paths=(20000, 20000))
def kinds(H):
    w = World(H)
    limit = H.pick('limit', [0, 2])
    c = Cacher(w.op, limit)
    k = Kept(limit)
    names = ['X', 'XX', 'Y', 'YX', 'X,1', 'a=X,b=Y', 'b=Y,a=X', 'P', 'N', 'PN', 'X,s', 'X,None', 'none']
    a, b = H.pick('a', names), H.pick('b', names)
    call(H, w, c, k, a, 'first: ')
    call(H, w, c, k, b, 'first: ')
    ch = H.pick('change', ['nothing', 'X.item', 'P.item', 'N.all'])
    if ch in TOUCH:
        w.change(ch)
        k.touched(TOUCH[ch])
    for t in ('second: ', 'third: '):
        call(H, w, c, k, a, t)
        call(H, w, c, k, b, t)
    c.reset()
    k.clear()
    state(H, w, c, k, 'reset: ')


@scenario('dropped', bounds='limit 1 to 3: n arguments that nobody else holds, one call each (alone, twice in a call, with a common argument): those of dropped results die, the common argument is observed as long as it is needed',
          quick=dict(N=4), thorough=dict(N=6), max_paths=(20000, 20000))
def dropped(H, N):
    w = World(H)
    limit = H.choice('limit', 3) + 1
    c = Cacher(w.op, limit)
    refs = []
    for i in range(N):
        z = ObsAr(np.array([float(i)]))
        f = H.pick('form%d' % i, ['z', 'zz', 'zX', 'k=z'])
        refs.append((weakref.ref(z), f))
        if f == 'z':
            c(z)
        elif f == 'zz':
            c(z, z)
        elif f == 'zX':
            c(z, w.X)
        else:
            c(w.Y, k=z)
        del z
        for j, (r, g) in enumerate(refs):
            if j <= i - limit:
                H.check(r() is None, 'an argument of a dropped result is not kept alive')
        needed = [g for _, g in refs[-limit:]]
        if 'zX' not in needed:
            H.check(regs(w, c, 'X') == 0, 'an argument without a kept result is not observed')
        if 'k=z' not in needed:
            H.check(regs(w, c, 'Y') == 0, 'an argument without a kept result is not observed')
        H.check(R.alive() <= limit, 'at most the limit of results is kept')
    c.reset()
    H.check(all(r() is None for r, _ in refs) and R.alive() == 0 and regs(w, c, 'X') == 0 and regs(w, c, 'Y') == 0, 'nothing is kept or observed after a reset')


class Meth:
    def __init__(self, w):
        self.w = w

    @Cache_this(limit=2, ignore_args=(0, 2), force_kwargs=('force',))
    def f(self, x, ign=0, force=None):
        self.w.runs += 1
        return R([x is self.w.X])

    @Cache_this(limit=1, ignore_args=(0,))
    def g(self, x):
        self.w.runs += 1
        return R([x is self.w.X])


@scenario('methods', bounds='decorated methods on two objects: positional, keyword and default calls share results, ignored arguments do not matter, forced calls leave the kept results alone, objects and methods have caches of their own', max_paths=(20000, 20000))
def methods(H):
    w = World(H)
    a, b = Meth(w), Meth(w)
    X, Y = w.X, w.Y
    forms = [lambda o: o.f(X), lambda o: o.f(X, 5), lambda o: o.f(x=X), lambda o: o.f(X, ign='t'), lambda o: o.f(ign=3, x=X), lambda o: o.f(X, 0, None)]
    a.f(X)
    b.f(X)
    H.check(w.runs == 2, 'every object has its own cache')
    for t in ('1', '2'):
        what = H.pick('between' + t, ['nothing', 'other', 'force', 'g', 'other object'])
        if what == 'other':
            a.f(Y)
        elif what == 'force':
            a.f(X, force=2)
        elif what == 'g':
            a.g(Y)
            a.g(X)
        elif what == 'other object':
            for z in (Y, ObsAr(np.array([1.])), ObsAr(np.array([2.]))):
                b.f(z)
        n = w.runs
        r = H.pick('form' + t, forms)(a)
        H.check(w.runs == n, 'a kept result is not computed again')
        H.check(r.val == [True], 'the result is right')
    H.check(R.alive() <= 8, 'at most the limit of results is kept per method and object')
