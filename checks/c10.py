"""Observer notification: order, exactly once, removal, threshold."""
import numpy as np
from symx.harness import scenario
from paramz import Param, ObsAr, Parameterized
from paramz.core.observable import Observable

INF = float('inf')


class Ob:
    """observers compare equal to everything"""
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = object.__hash__


class Calls:
    def __init__(self, methods=False):
        self.l = []
        self.fns = {}
        self.methods = methods

    def fn(self, tag):
        if tag not in self.fns:
            def f(me, which=None):
                self.l.append((tag, me, which))
            self.fns[tag] = Bound(self.l, tag) if self.methods else f
        f = self.fns[tag]
        # a new (but equal) method object every time
        return f.call if self.methods else f


class Bound:
    def __init__(self, l, tag):
        self.l, self.tag = l, tag

    def call(self, me, which=None):
        self.l.append((self.tag, me, which))


def make(H):
    k = H.pick('observable', ['plain', 'ObsAr', 'Param'])
    if k == 'plain':
        return Observable()
    if k == 'ObsAr':
        return ObsAr(np.array([1., 2.]))
    p = Param('p', np.array([1., 2.]))
    return p


def before(a, b):
    """registration a is called before b: (priority, order of registration)"""
    return (a[0] > b[0]) | ((a[0] == b[0]) & (a[1] < b[1]))


def check_order(H, reg, called, thr, tag):
    """reg: list of (priority, order, tag); called: tags in order"""
    H.check(len(set(called)) == len(called), tag + 'no registration is called twice')
    pos = {t: i for i, t in enumerate(called)}
    for p, o, t in reg:
        if thr is None:
            H.check(t in pos, tag + 'every registered observer is called')
        else:
            H.check((p > thr) == (t in pos), tag + 'exactly those above the threshold are called')
    H.check(set(called) <= set(t for _, _, t in reg), tag + 'only registered observers are called')
    for a in reg:
        for b in reg:
            if a is not b and a[2] in pos and b[2] in pos:
                H.check(before(a, b) == (pos[a[2]] < pos[b[2]]), tag + 'decreasing priority, then order of registration')


@scenario('order', bounds='N observers with arbitrary real priorities (or plus or minus infinity) and an arbitrary threshold (or none): order and selection; plain observable, observable array, parameter',
          quick=dict(N=3), thorough=dict(N=4), max_paths=(6000, 60000))
def order(H, N):
    o = make(H)
    c = Calls()
    obs = [Ob(str(i)) for i in range(N)]
    reg = []
    for i in range(N):
        s = H.choice('special%d' % i, 3)
        p = H.real('p%d' % i) if s == 0 else (INF if s == 1 else -INF)
        o.add_observer(obs[i], c.fn(i), p)
        reg.append((p, i, i))
    k = H.pick('threshold', ['none', 'any', '-inf'])
    thr = None if k == 'none' else (-INF if k == '-inf' else H.real('thr'))
    w = H.pick('which', [None, obs[0]])
    o.notify_observers(w, thr)
    check_order(H, reg, [t for t, _, _ in c.l], thr, '')
    for t, me, which in c.l:
        H.check(me is o and which is (o if w is None else w), 'observers are told who changed')
    H.observe('called', [t for t, _, _ in c.l])


OPS = ['add', 'remove_all', 'remove_one', 'change', 'die', 'notify']


@scenario('histories', bounds='two observables, two observers with two callbacks each (functions, or the same method of different objects), every sequence of L out of add, remove an observer, remove one of its callbacks, change a priority, an observer dying, notify; arbitrary priorities',
          quick=dict(L=2), thorough=dict(L=3), max_paths=(40000, 400000))
def histories(H, L):
    o = Observable()
    c = Calls(H.bool('methods'))
    obs = {'A': Ob('A'), 'B': Ob('B'), 'K': Ob('K')}
    reg = []
    n = 0

    def add(who, cb, p):
        nonlocal n
        o.add_observer(obs[who], c.fn((who, cb)), p)
        reg.append((p, n, (who, cb)))
        n += 1
    add('K', 0, 0)
    add('A', 0, H.real('pa'))
    add('B', 1, H.real('pb'))
    dead = set()
    for s in range(L):
        op = H.pick('op%d' % s, OPS)
        who = H.pick('who%d' % s, ['A', 'B']) if op != 'notify' else None
        if who in dead:
            continue
        H.label(op, who or '')
        if op == 'add':
            cb = H.choice('cb%d' % s, 2)
            if (who, cb) not in [t for _, _, t in reg]:
                add(who, cb, H.real('p%d' % s))
        elif op == 'remove_all':
            o.remove_observer(obs[who])
            reg = [r for r in reg if r[2][0] != who]
        elif op == 'remove_one':
            cb = H.choice('cb%d' % s, 2)
            o.remove_observer(obs[who], c.fn((who, cb)))
            reg = [r for r in reg if r[2] != (who, cb)]
        elif op == 'change':
            cb = H.choice('cb%d' % s, 2)
            p = H.real('p%d' % s)
            if (who, cb) in [t for _, _, t in reg]:
                o.change_priority(obs[who], c.fn((who, cb)), p)
                reg = [r for r in reg if r[2] != (who, cb)] + [(p, n, (who, cb))]
                n += 1
        elif op == 'die':
            del obs[who]
            dead.add(who)
            reg = [r for r in reg if r[2][0] != who]
        elif op == 'notify':
            del c.l[:]
            o.notify_observers()
            check_order(H, reg, [t for t, _, _ in c.l], None, 'in between: ')
    del c.l[:]
    o.notify_observers()
    check_order(H, reg, [t for t, _, _ in c.l], None, 'at the end: ')
    H.observe('n', len(c.l))


@scenario('twice', bounds='the same callback registered twice with arbitrary priorities is called twice; removing it removes both', max_paths=(200, 200))
def twice(H):
    o = make(H)
    c = Calls()
    a, b = Ob('a'), Ob('b')
    p, q = H.real('p'), H.real('q')
    o.add_observer(a, c.fn('a'), p)
    o.add_observer(b, c.fn('b'), H.real('r'))
    o.add_observer(a, c.fn('a'), q)
    o.notify_observers()
    H.check(sorted(t for t, _, _ in c.l) == ['a', 'a', 'b'], 'once per registration')
    o.remove_observer(a, c.fn('a'))
    del c.l[:]
    o.notify_observers()
    H.check([t for t, _, _ in c.l] == ['b'], 'removing a callback removes exactly its registrations')


@scenario('updates_off', bounds='an observable array or parameter with updates off: no observer is called by any change; on again: every change is announced once per change', max_paths=(2000, 2000))
def updates_off(H):
    o = make(H)
    c = Calls()
    a = Ob('a')
    o.add_observer(a, c.fn('a'), H.real('p'))
    o.set_updates(False)
    change = H.pick('change', ['notify', 'item', 'all', 'iadd', 'imul', 'isub', 'idiv', 'ifloordiv', 'imod', 'ipow'])
    v = H.real('v', nonzero=True)

    def do():
        if change == 'notify' or not isinstance(o, np.ndarray):
            o.notify_observers()
        elif change == 'item':
            o[1] = v
        elif change == 'all':
            o[:] = v
        elif change == 'iadd':
            o.__iadd__(v)
        elif change == 'imul':
            o.__imul__(v)
        elif change == 'isub':
            o.__isub__(v)
        elif change == 'idiv':
            o.__itruediv__(v)
        elif change == 'ifloordiv':
            o.__ifloordiv__(2.)
        elif change == 'imod':
            o.__imod__(2.)
        else:
            o.__ipow__(2)
    do()
    H.check(not c.l, 'with updates off nothing is called')
    o.set_updates(True)
    H.check(not c.l, 'switching updates on calls nothing by itself')
    do()
    H.check(len(c.l) == 1, 'with updates on every change is announced once')


@scenario('equal_observers', bounds='observers that are arrays (equal by value) or parameters with equal values: removing one leaves the other', max_paths=(2000, 2000))
def equal_observers(H):
    o = make(H)
    c = Calls()
    kind = H.pick('kind', [lambda: ObsAr(np.array([1.])), lambda: Param('q', np.array([1.])), lambda: Ob('x')])
    obs = [kind(), kind(), kind()]
    for i, b in enumerate(obs):
        o.add_observer(b, c.fn(i), H.real('p%d' % i))
    i = H.choice('removed', 3)
    if H.bool('by_callback'):
        o.remove_observer(obs[i], c.fn(i))
    else:
        o.remove_observer(obs[i])
    o.notify_observers()
    H.check(sorted(t for t, _, _ in c.l) == [j for j in range(3) if j != i], 'removing an observer leaves equal ones alone')


@scenario('during', bounds='three observers with arbitrary distinct or equal priorities, one of whose callbacks changes the registrations while it is being notified: removes itself or another observer, registers a new one, changes a priority, another observer dies, or notifies again: registrations it did not touch are called exactly once and in order; the next notification calls exactly those registered then',
          quick=dict(N=3), thorough=dict(N=4), max_paths=(20000, 100000))
def during(H, N):
    o = make(H)
    c = Calls()
    obs = [Ob(str(i)) for i in range(N)]
    new = Ob('new')
    act = H.choice('acting', N)
    what = H.pick('what', ['remove_self', 'remove_other', 'remove_other_cb', 'add', 'change', 'die', 'notify'])
    tgt = (act + 1 + H.choice('target', N - 1)) % N if what not in ('remove_self', 'add', 'notify') else act
    H.label(what)
    done = []
    cbs = []

    def callback(i):
        def f(me, which=None):
            c.l.append(i)
            if i == act and not done:
                done.append(1)
                if what == 'remove_self':
                    o.remove_observer(obs[i])
                elif what == 'remove_other':
                    o.remove_observer(obs[tgt])
                elif what == 'remove_other_cb':
                    o.remove_observer(obs[tgt], cbs[tgt])
                elif what == 'add':
                    o.add_observer(new, lambda me, which=None: c.l.append('new'), q)
                elif what == 'change':
                    o.change_priority(obs[tgt], cbs[tgt], q)
                elif what == 'die':
                    obs[tgt] = None
                else:
                    o.notify_observers()
        return f
    q = H.real('q') if what in ('add', 'change') else 0
    reg = []
    for i in range(N):
        p = H.real('p%d' % i)
        cbs.append(callback(i))
        o.add_observer(obs[i], cbs[i], p)
        reg.append((p, i, i))
    o.notify_observers()
    first = list(c.l)
    untouched = [r for r in reg if r[2] == act or what in ('remove_self', 'add', 'notify') or r[2] != tgt]
    if what == 'notify':
        # the inner notification is complete and in order, inside the outer one
        k = first.index(act)
        check_order(H, reg, first[k + 1:k + 1 + N], None, 'notified from a callback: ')
        first = first[:k + 1] + first[k + 1 + N:]
        check_order(H, reg, first, None, 'around it: ')
    else:
        check_order(H, untouched, [t for t in first if t in [r[2] for r in untouched]], None, 'while registrations change: ')
        H.check(first.count('new') <= 1 and first.count(tgt) <= 2 - (what != 'change'), 'nobody else is called more often')
    del c.l[:]
    o.notify_observers()
    if what in ('remove_self', 'remove_other', 'remove_other_cb', 'die'):
        reg = [r for r in reg if r[2] != tgt]
    elif what == 'add':
        reg = reg + [(q, N, 'new')]
    elif what == 'change':
        reg = [r for r in reg if r[2] != tgt] + [(q, N, tgt)]
    check_order(H, reg, list(c.l), None, 'afterwards: ')
    H.observe('calls', len(c.l))
