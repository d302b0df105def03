"""Deferred initialization ends in the same state as immediate initialization."""
import warnings
import numpy as np
from symx.harness import scenario
from paramz import Param, Parameterized
from paramz.transformations import __fixed__
from .lab import Opaque, Twice, Flip, flat, pos_of


class Snap(Opaque):
    """initializing changes the values: f -> 2f + 1"""
    def initialize(self, f):
        return 2. * f + 1.


class Log(Parameterized):
    log = key = None

    def parameters_changed(self):
        if self.log is not None:
            self.log.append((self.key, flat(self.param_array)))


SPEC = ('root', [('a', 2), ('n', [('b', 1), ('c', (1, 2))])])
DEEP = ('root', [('m', [('n', [('a', 1)]), ('b', 1)]), ('c', 1)])
SIBS = ('root', [('n', [('a', 1)]), ('m', [('b', 1)]), ('c', 1)])

SPECS = {'nested': SPEC, 'deep': DEEP, 'siblings': SIBS}


class World:
    """two hierarchies built alike, one initialized at once (o) and one later (d)"""
    def __init__(self, H, spec, late, topdown, early=None):
        self.H, self.late, self.topdown, self.early = H, late, topdown, early
        self.o, self.d, self.kids, self.parent, self.shape = {}, {}, {}, {}, {}
        self.olog, self.dlog = [], []
        self.name = spec[0]
        self.make(spec, None)

    def make(self, spec, up):
        name, kids = spec
        self.parent[name] = up
        if isinstance(kids, list):
            self.o[name] = Log(name)
            self.d[name] = Log(name, initialize=False) if name in self.late else Log(name)
            self.o[name].log, self.d[name].log = self.olog, self.dlog
            self.o[name].key = self.d[name].key = name
            self.kids[name] = [k[0] for k in kids]
            if self.topdown and up:
                self.link(up, name)
            for k in kids:
                self.make(k, name)
            if up and not self.topdown:
                self.link(up, name)
            return
        self.shape[name] = kids if isinstance(kids, tuple) else (kids,)
        v = self.H.reals(name, int(np.prod(kids)))
        for w in (self.o, self.d):
            w[name] = Param(name, np.array(v).reshape(self.shape[name]))
            if self.early and self.early[0] == name:
                p = w[name] if self.early[1] is None else w[name][tuple(slice(q, q + 1) for q in pos_of(w[name], self.early[1]))]
                p.fix() if self.early[2] == 'fix' else p.constrain(Twice())
        self.link(up, name)

    def link(self, up, name):
        self.o[up].link_parameter(self.o[name])
        self.d[up].link_parameter(self.d[name])

    def nodes(self):
        return list(self.kids)

    def below(self, n):
        return [n] + [d for k in self.kids.get(n, []) for d in self.below(k)]

    def above(self, n):
        out = []
        while self.parent[n]:
            n = self.parent[n]
            out.append(n)
        return out


def leaves_of(spec):
    name, kids = spec
    if isinstance(kids, list):
        return {k: v for c in kids for k, v in leaves_of(c).items()}
    return {name: int(np.prod(kids))}


def build(H, specs, prepare=False):
    spec = SPECS[H.pick('spec', specs)]
    names = []

    def walk(s):
        if isinstance(s[1], list):
            names.append(s[0])
            for k in s[1]:
                walk(k)
    walk(spec)
    late = ['root'] + [n for n in names[1:] if H.bool('late_' + n)]
    early = None
    if prepare:
        shapes = leaves_of(spec)
        l = H.pick('early', sorted(shapes))
        i = H.choice('early_el', shapes[l] + 1)
        early = (l, None if i == shapes[l] else i, H.pick('early_op', ['fix', 'twice']))
        H.label(*map(str, early))
    w = World(H, spec, late, H.bool('topdown'), early)
    # linking to an initialized object initializes
    w.late = [n for n in late if w.parent[n] is None or all(u in late for u in w.above(n))]
    del w.olog[:], w.dlog[:]
    return w


def both(w, fn):
    fn(w.o)
    fn(w.d)


def decorate(H, w, t, ops, leaves_only=False):
    where = H.pick(t + 'where', list(w.shape) if leaves_only else list(w.shape) + w.nodes())
    op = H.pick(t + 'op', ops)
    H.assume(not (op == 'write' and where in w.late))
    el = None
    if where in w.shape:
        n = int(np.prod(w.shape[where]))
        i = H.choice(t + 'el', n + 1 if n > 1 else 1)
        el = None if i == n or n == 1 else i
    v = H.real(t + 'v')
    H.label(op, where, el if el is not None else '')

    def go(o):
        p = o[where]
        if el is not None:
            p = p[tuple(slice(q, q + 1) for q in pos_of(p, el))]
        if op == 'twice':
            p.constrain(Twice())
        elif op == 'snap':
            p.constrain(Snap())
        elif op == 'fix':
            p.fix()
        elif op == 'unfix':
            p.unfix()
        elif op == 'unconstrain':
            p.unconstrain()
        elif op == 'write':
            if el is None:
                o[where][:] = v
            else:
                o[where][pos_of(o[where], el)] = v
        elif op == 'rename':
            o[where].name = 'x' + where
        elif op == 'gradient':
            o[where].gradient = v
        elif op == 'param_array':
            o[where].param_array.flat[0] = v
    both(w, go)


def compare(H, w, tag, top='root'):
    for nm in w.below(top):
        a, b = w.o[nm], w.d[nm]
        H.check(a.name == b.name, tag + 'the same names')
        H.eq(b.size, a.size, tag + 'the same sizes')
        up = w.parent[nm]
        H.check(b._parent_ is (w.d[up] if up else None) and b._highest_parent_ is w.d[top], tag + 'the same parents')
        if up:
            H.check(w.d[up].parameters[b._parent_index_] is b and b._parent_index_ == a._parent_index_, tag + 'the same positions')
            H.check(getattr(w.d[up], b.name) is b, tag + 'available by name')
        if nm in w.kids:
            H.check(a.parameter_names() == b.parameter_names(), tag + 'the same parameter names')
            H.check(len(b.parameters) == len(w.kids[nm]), tag + 'the same parameters')
        H.eq(flat(b.param_array), flat(a.param_array), tag + 'the same values at every level')
        ca = {k: sorted(int(i) for i in x) for k, x in a.constraints.items()}
        cb = {k: sorted(int(i) for i in x) for k, x in b.constraints.items()}
        H.check(ca == cb, tag + 'the same constraints and fixes at every level')
        H.check(a._has_fixes() == b._has_fixes() and a._size_transformed() == b._size_transformed(), tag + 'as many free elements at every level')
        H.eq(flat(b.optimizer_array), flat(a.optimizer_array), tag + 'the same optimizer vector at every level')
        H.check(a.update_model() is b.update_model(), tag + 'the same update setting')
        ra, rb = w.o[top]._raveled_index_for_transformed(a), w.d[top]._raveled_index_for_transformed(b)
        H.check([int(i) for i in ra] == [int(i) for i in rb], tag + 'the same places in the optimizer vector')
    # one memory: what is written anywhere is read everywhere
    v = H.reals(tag + 'v', w.d[top].size)
    if not v:
        return
    w.d[top].param_array[...] = np.array(v).reshape(w.d[top].param_array.shape)
    k = 0
    for l in leaves(w, top):
        n = int(np.prod(w.shape[l]))
        H.eq(flat(w.d[l].values), v[k:k + n], tag + 'values written at the root arrive in the parameters')
        x = H.real(tag + 'x' + l)
        w.d[l].param_array.flat[0] = x
        v[k] = x
        g = H.reals(tag + 'g' + l, n)
        w.d[l].gradient = np.array(g).reshape(w.shape[l])
        H.eq(flat(w.d[top].gradient_full)[k:k + n], g, tag + 'gradients of the parameters arrive at the root')
        k += n
    for nm in w.below(top):
        if nm in w.shape or not w.d[nm].size:
            continue
        k0 = 0
        for l in leaves(w, top):
            if l == [x for x in w.below(nm) if x in w.shape][0]:
                break
            k0 += int(np.prod(w.shape[l]))
        H.eq(flat(w.d[nm].param_array), v[k0:k0 + w.d[nm].size], tag + 'values written to the parameters arrive at every level')


def leaves(w, top='root'):
    return [x for x in w.below(top) if x in w.shape]


def refused(H, w):
    """values are not set through a model, which is not initialized"""
    for n in w.late:
        how = H.pick('refused_' + n, ['all', 'name', 'slice', 'optimizer', 'randomize'])
        before = [flat(w.d[l].values) for l in leaves(w)]
        try:
            if how == 'all':
                w.d[n][:] = 1.
            elif how == 'name':
                w.d[n][''] = 1.
            elif how == 'optimizer':
                w.d[n].optimizer_array = np.ones(w.d[n].size)
            elif how == 'randomize':
                w.d[n].randomize(lambda size: np.ones(size))
            else:
                w.d[n][0:1] = np.ones(1)
            H.check(False, 'setting values through an object which is not initialized is refused')
        except AttributeError:
            pass
        for b, l in zip(before, leaves(w)):
            H.eq(flat(w.d[l].values), b, 'a refused change changes nothing')


def quiet(H, w):
    for n, _ in w.dlog:
        H.check(n not in w.late, 'nothing is updated before it is initialized')


def last(log):
    out = {}
    for n, v in log:
        out[n] = v
    return out


def touch(w):
    """read everything; what is not initialized has no values yet, but reading them changes nothing"""
    for o in w.d.values():
        for r in (lambda: o.size, lambda: o.param_array, lambda: o.gradient, lambda: o._size_transformed(), lambda: list(o.constraints.items()),
                  lambda: o.is_fixed, lambda: o._has_fixes(), lambda: o.hierarchy_name(), lambda: o.parameter_names(), lambda: o.parameter_names_flat(),
                  lambda: o.flattened_parameters, lambda: o.update_model(), lambda: o._highest_parent_, lambda: o._description_str):
            r()


def initialize(H, w, where, on, look=False):
    if look and H.bool('looked'):
        touch(w)
    del w.olog[:], w.dlog[:]
    if not on:
        both(w, lambda o: o['root'].update_model(False))
        H.check(w.dlog == [], 'nothing is updated while updates are off')
    w.d[where].initialize_parameter()
    H.check(all(w.d[n]._model_initialized_ for n in w.nodes()), 'everything is initialized')
    if not on:
        H.check(w.dlog == [], 'initializing with updates off updates nothing')
    else:
        names = [n for n, _ in w.dlog]
        H.check(sorted(names) == sorted(w.nodes()), 'initializing updates every object once')
        H.check(all(names.index(w.parent[n]) > names.index(n) for n in names if w.parent[n]), 'initializing updates children first')
        for n, v in w.dlog:
            H.eq(v, flat(w.d[n].param_array), 'the update sees the values')
    del w.olog[:], w.dlog[:]


def finish(H, w, on):
    """values set afterwards are treated alike"""
    v = H.reals('set_v', w.d['root'].size)
    if H.bool('set'):
        H.label('set all')
        both(w, lambda o: o['root'].__setitem__(slice(None), np.array(v)))
    if not on:
        H.check(w.dlog == [], 'nothing is updated while updates are off')
        both(w, lambda o: o['root'].update_model(True))
    H.check([n for n, _ in w.olog] == [n for n, _ in w.dlog], 'as many updates as a model initialized at once, in the same order')
    for (n, a), (_, b) in zip(w.olog, w.dlog):
        H.eq(b, a, 'the updates see the same values')
    compare(H, w, 'end: ')


OPS = ['twice', 'snap', 'fix', 'write', 'rename']


@scenario('refused', bounds='hierarchies of five objects, any of them not initialized, a change of values through each of those in five ways',
          quick=dict(specs=['nested', 'deep']), thorough=dict(specs=sorted(SPECS)), max_paths=(4000, 20000))
def refuse(H, specs):
    w = build(H, specs)
    refused(H, w)
    quiet(H, w)
    initialize(H, w, 'root', True)
    finish(H, w, True)


@scenario('before', bounds='hierarchies of five objects, any of them not initialized, linked top down or bottom up, any L constraints, fixes, values or names set before the initialization',
          quick=dict(specs=['nested'], cases=[[1, ['snap', 'rename']], [2, ['twice', 'fix', 'write']]]), thorough=dict(specs=['nested', 'deep'], cases=[[2, OPS + ['unfix', 'unconstrain']]]), max_paths=(20000, 100000))
def before(H, specs, cases):
    L, ops = H.pick('case', cases)
    w = build(H, specs)
    for i in range(L):
        decorate(H, w, 'o%d' % i, ops)
        quiet(H, w)
    on = H.bool('on')
    initialize(H, w, 'root', on)
    finish(H, w, on)


@scenario('after', bounds='the same with L changes after the initialization, while updates are on or off',
          quick=dict(specs=['nested'], cases=[[1, ['snap', 'rename']], [2, ['twice', 'fix', 'write']]]), thorough=dict(specs=['nested', 'deep'], cases=[[2, OPS + ['unfix', 'unconstrain']]]), max_paths=(20000, 100000))
def after(H, specs, cases):
    L, ops = H.pick('case', cases)
    w = build(H, specs)
    on = H.bool('on')
    initialize(H, w, 'root', on)
    for i in range(L):
        decorate(H, w, 'o%d' % i, ops)
    finish(H, w, on)


@scenario('prepared', bounds='hierarchies of four or five objects, any of them not initialized, with any element or the whole of one parameter fixed or constrained before it is linked', quick=dict(specs=['nested']), thorough=dict(specs=sorted(SPECS)), max_paths=(4000, 20000))
def prepared(H, specs):
    w = build(H, specs, True)
    quiet(H, w)
    on = H.bool('on')
    initialize(H, w, 'root', on, True)
    finish(H, w, on)


@scenario('inner', bounds='the initialization is asked from any object of the hierarchy', quick=dict(specs=sorted(SPECS)), thorough=dict(specs=sorted(SPECS)), max_paths=(4000, 20000))
def inner(H, specs):
    w = build(H, specs)
    where = H.pick('from', w.nodes() + list(w.shape))
    on = H.bool('on')
    initialize(H, w, where, on, True)
    finish(H, w, on)


def move(H, w, t):
    """unlink or move something, or link something new, before the initialization"""
    def own(n):
        out = n
        while w.parent.get(out):
            out = w.parent[out]
        return out
    names = list(w.o)
    ops = [('unlink', n) for n in names if w.parent.get(n)]
    for q in w.nodes():
        for n in names:
            if n != 'root' and q not in w.below(n) and (w.parent.get(n) is None or w.parent[n] == q):
                ops += [('link', n, q, at) for at in ([None] if w.parent.get(n) is None else []) + list(range(len(w.kids[q])))]
    op = H.pick(t + 'op', ops)
    H.label(*[str(x) for x in op])
    n = op[1]
    if op[0] == 'unlink':
        both(w, lambda o: o[w.parent[n]].unlink_parameter(o[n]))
        w.kids[w.parent[n]].remove(n)
        w.parent[n] = None
    else:
        q, at = op[2:]
        both(w, lambda o: o[q].link_parameter(o[n]) if at is None else o[q].link_parameter(o[n], at))
        if w.parent.get(n):
            w.kids[w.parent[n]].remove(n)
        w.kids[q].insert(len(w.kids[q]) if at is None else at, n)
        w.parent[n] = q


@scenario('structure', bounds='hierarchies of five objects, any of them not initialized, any L objects moved, unlinked or linked again before the initialization',
          quick=dict(specs=['nested'], L=2, marks=False), thorough=dict(specs=sorted(SPECS), L=2, marks=True), max_paths=(4000, 100000))
def structure(H, specs, L, marks):
    w = build(H, specs)
    if marks:
        decorate(H, w, 'm', ['twice', 'fix'], True)
    for i in range(L):
        move(H, w, 's%d' % i)
        quiet(H, w)
    del w.olog[:], w.dlog[:]
    for t in [n for n in w.o if w.parent.get(n) is None and n in w.kids]:
        for n in w.below(t):
            if n in w.kids:
                H.check(t not in w.late or n not in w.late or not w.d[n]._model_initialized_, 'moving something does not initialize')
    for t in [n for n in w.o if w.parent.get(n) is None and n in w.kids]:
        w.d[t].initialize_parameter()
        w.o[t].update_model(True)
    H.check([n for n, _ in w.olog] == [n for n, _ in w.dlog], 'initializing updates every object')
    for (n, a), (_, b) in zip(w.olog, w.dlog):
        H.eq(b, a, 'the updates see the values')
    del w.olog[:], w.dlog[:]
    for t in [n for n in w.o if w.parent.get(n) is None]:
        compare(H, w, 'end of %s: ' % t, t)


class Inside(Log):
    """links, constrains and writes while it is being built"""
    def __init__(self, name, plan):
        super(Inside, self).__init__(name)
        plan(self)


@scenario('in_init', bounds='a hierarchy linked in any order inside or outside __init__, with one constraint, fix or value set there',
          quick=dict(ops=OPS), thorough=dict(ops=OPS + ['unfix', 'unconstrain']), max_paths=(4000, 40000))
def in_init(H, ops):
    a, b, c, v = H.reals('a', 2), H.real('b'), H.real('c'), H.real('v')
    topdown, extra, defer = H.bool('topdown'), H.bool('extra'), H.bool('defer')
    op, where = H.pick('op', ops), H.pick('where', ['root', 'a', 'n', 'b'])
    H.assume(not (op == 'write' and where == 'root'))
    H.label(op, where)
    log = []

    def plan(o):
        def f(root):
            o['root'] = root
            n = o['n'] = Log('n') if not defer or o.get('now') else Log('n', initialize=False)
            o['a'], o['b'], o['c'] = Param('a', np.array(a)), Param('b', np.array([b])), Param('c', np.array([c]))
            root.link_parameter(o['a'])
            if topdown:
                root.link_parameter(n)
                n.link_parameter(o['b'])
            else:
                n.link_parameter(o['b'])
                root.link_parameter(n)
            if extra:
                root.link_parameter(o['c'], 0)
                root.unlink_parameter(o['c'])
            root.log, root.key = log, 'root'
            p = o[where]
            H.assume(not (op == 'write' and where == 'n' and not n._model_initialized_))
            if op == 'twice':
                p.constrain(Twice())
            elif op == 'snap':
                p.constrain(Snap())
            elif op == 'fix':
                p.fix()
            elif op == 'unfix':
                p.unfix()
            elif op == 'unconstrain':
                p.unconstrain()
            elif op == 'write':
                p[:] = v
            elif op == 'rename':
                p.name = 'x' + where
            if o.get('now') is None:
                H.check(log == [], 'nothing is updated while it is being built')
            return o
        return f
    w = World.__new__(World)
    w.H, w.late = H, []
    w.o, w.d = {'now': True}, {}
    plan(w.o)(Log('root'))
    w.o.pop('now')
    log = []
    Inside('root', plan(w.d))
    w.kids, w.parent = {'root': ['a', 'n'], 'n': ['b']}, {'root': None, 'a': 'root', 'n': 'root', 'b': 'n'}
    w.shape = {'a': (2,), 'b': (1,)}
    H.check([n for n, _ in log] == ['root'], 'it is updated once when it is built')
    H.eq(log[0][1], flat(w.o['root'].param_array), 'the update sees the values')
    for o in (w.o, w.d):
        H.check(o['c']._parent_ is None, 'an unlinked parameter has no parent')
        o.pop('c')
        o['root'].log = None
    compare(H, w, 'built: ')


@scenario('linked', bounds='a hierarchy which is not initialized is linked to one that is, with values and constraints set before',
          quick=dict(ops=OPS), thorough=dict(ops=OPS + ['unfix', 'unconstrain']), max_paths=(4000, 40000))
def linked(H, ops):
    w = World.__new__(World)
    w.H, w.topdown, w.early, w.late = H, False, None, ['m', 'n'] if H.bool('late_n') else ['m']
    w.o, w.d, w.kids, w.parent, w.shape, w.olog, w.dlog = {}, {}, {}, {}, {}, [], []
    w.make(('root', [('c', 1)]), None)
    w.make(('m', [('n', [('a', 1)]), ('b', 2)]), None)
    del w.olog[:], w.dlog[:]
    decorate(H, w, 'o', ops)
    if H.bool('looked'):
        touch(w)
    quiet(H, w)
    at = H.choice('at', 2)
    both(w, lambda o: o['root'].link_parameter(o['m'], at))
    w.kids['root'].insert(at, 'm')
    w.parent['m'] = 'root'
    H.check(all(w.d[n]._model_initialized_ for n in w.nodes()), 'everything is initialized')
    del w.olog[:], w.dlog[:]
    finish(H, w, True)
