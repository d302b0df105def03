"""A copy is equal to and independent of its original."""
import numpy as np
from symx.harness import scenario
from paramz import ObsAr, Param
from paramz.caching import Cache_this
from .lab import Lab, SPECS, LOG, flat, write, constrain_op, do, lab_ops, tops
from .copylab import GNode, GMod, clone, same_structure, check_gradient, check_vector, decorate_some, make, state


def copied(H, lab, nm, tag=''):
    before = state(lab)
    grad = [list(flat(lab.o[n].gradient_full)) for n in lab.o]
    del LOG[:]
    c = clone(lab, nm, lab.o[nm].copy())
    old = set(map(id, lab.o.values()))
    H.check(not any(id(o) in old for o in LOG), tag + 'copying does not notify the original')
    H.check(state(lab) == before, tag + 'copying leaves the original as it was')
    for n, g in zip(lab.o, grad):
        H.eq(flat(lab.o[n].gradient_full), g, tag + 'copying leaves the gradients of the original as they were')
    return c


@scenario('equal', bounds='three hierarchies of five elements, any element constrained and any fixed (or none), a copy of any object: structure, names, values, constraints, fixes, gradients, optimizer vectors of both',
          quick=dict(shapes=['nested', 'deep', 'chain', 'solo', 'one']), thorough=dict(shapes=sorted(SPECS)), max_paths=(9000, 60000))
def equal(H, shapes):
    lab = make(H, shapes)
    lab.root.optimizer_array
    c = copied(H, lab, H.pick('copied', list(lab.o)))
    same_structure(H, lab, c, 'copy: ')
    for t, l in (('copy: ', c), ('original: ', lab)):
        l.check(t)
        check_gradient(H, l, t)
        check_vector(H, l, t)
    H.observe('values', flat(c.root.param_array))


@scenario('independent', bounds='a copy of any object, then one change (a write in 8 or all 20 ways, constraining, fixing, unconstraining, renaming, linking, moving, unlinking) of either side: the other side is unchanged and not notified',
          quick=dict(shapes=['nested', 'one'], copies=None, ways=None), thorough=dict(shapes=sorted(SPECS), copies=None, ways=None), max_paths=(9000, 100000))
def independent(H, shapes, copies, ways):
    lab = make(H, shapes, few=True)
    c = copied(H, lab, H.pick('copied', [n for n in lab.o if not copies or n in copies]))
    side = H.choice('changed', 2)
    l, other = (lab, c) if side == 0 else (c, lab)
    before = state(other)
    del LOG[:]
    k = H.pick('kind', ['write', 'constrain', 'structure', 'rename', 'updates', 'gradient'])
    if k == 'write':
        write(H, l, ways=ways)
    elif k == 'constrain':
        constrain_op(H, l)
    elif k == 'structure':
        l.leaf('d', 1)
        l.parent['d'] = None
        ops = lab_ops(l)
        if l.rootname in l.ref or not ops:
            return
        op = H.pick('op', ops)
        H.label(*op)
        do(l, op)
    elif k == 'rename':
        n = H.pick('renamed', list(l.o))
        l.o[n].name = 'zzz'
    elif k == 'updates':
        l.root.update_model(False)
    else:
        n = H.pick('g', list(l.o))
        l.o[n].gradient = H.real('gv')
    for t in tops(l):
        l.check('changed: ', names=l.nodes(t))
    other.check('other: ')
    H.check(state(other) == before, 'the other one is unchanged')
    ids = set(map(id, other.o.values()))
    H.check(not any(id(o) in ids for o in LOG), 'the other one is not notified')
    check_gradient(H, other, 'other: ')
    check_vector(H, other, 'other: ')


@scenario('copy_of_copy', bounds='a copy of any object of a copy, with updates off or on, linked into a new place',
          quick=dict(shapes=['deep', 'chain']), thorough=dict(shapes=sorted(SPECS)), max_paths=(9000, 60000))
def copy_of_copy(H, shapes):
    lab = make(H, shapes, few=True)
    off = H.bool('updates_off')
    if off:
        lab.root.optimizer_array
        lab.root.update_model(False)
        if H.bool('changed_while_off'):
            write(H, lab, ways=['iadd', 'optimizer', 'item', 'nodemask'], names=['a', 'root'])
    c1 = copied(H, lab, H.pick('first', list(lab.o)), 'first: ')
    c2 = copied(H, c1, H.pick('second', list(c1.o)), 'second: ')
    same_structure(H, c1, c2, 'copy of the copy: ')
    c2.check('copy of the copy: ')
    H.check(all(o.update_model() is not off for o in c2.o.values()), 'the update setting is copied')
    for t, l in (('copy: ', c1), ('copy of the copy: ', c2)):
        check_vector(H, l, t)
    if c2.rootname != lab.rootname:
        # the copy can be used as a part of the original
        top = c2.o[c2.rootname]
        top.name = 'copied'
        lab.root.link_parameter(top)
        lab.o.update({'c_' + k: o for k, o in c2.o.items()})
        lab.ref.update({'c_' + k: e for k, e in c2.ref.items()})
        lab.kids.update({'c_' + k: ['c_' + x for x in e] for k, e in c2.kids.items()})
        lab.kids[lab.rootname].append('c_' + c2.rootname)
    lab.check('linked: ')


@scenario('again', bounds='copying any object, changing the original (a write, a constraint or fix, moving or unlinking a part), copying any object again: the second copy equals the changed state, the first one is as it was',
          quick=dict(shapes=['nested']), thorough=dict(shapes=['chain', 'deep', 'nested']), max_paths=(9000, 60000))
def again(H, shapes):
    lab = make(H, shapes, few=True)
    first = H.pick('first', list(lab.o))
    c = copied(H, lab, first, 'first: ')
    k = H.pick('kind', ['write', 'constrain', 'structure'])
    if k == 'write':
        write(H, lab, ways=['item', 'optimizer'])
    elif k == 'constrain':
        constrain_op(H, lab)
    else:
        op = H.pick('op', lab_ops(lab))
        H.label(*op)
        do(lab, op)
    nm = H.pick('second', list(lab.o))
    d = copied(H, lab, nm, 'second: ')
    H.check(not set(map(id, d.o.values())) & set(map(id, c.o.values())), 'nothing shared with the first one')
    same_structure(H, lab, d, 'second: ')
    d.check('second: ')
    check_vector(H, d, 'second: ')
    check_gradient(H, d, 'second: ')
    c.check('first: ')
    check_vector(H, c, 'first: ')


@scenario('param_shapes', bounds='copies of parameters of one to three dimensions with a constraint and a fix on arbitrary elements, and of slices of them', max_paths=(3000, 20000))
def param_shapes(H):
    sh = H.pick('shape', [(3,), (2, 2), (1, 2, 2)])
    n = int(np.prod(sh))
    lab = Lab(H, ('root', [('a', 1), ('b', sh)]), cls=GNode, root_cls=GMod)
    decorate_some(H, lab)
    if H.bool('unlinked'):
        do(lab, ('unlink', 'b'))
    c = copied(H, lab, 'b')
    same_structure(H, lab, c, 'copy: ')
    c.check('copy: ')
    c.o['b'][...] = 5.
    c.o['b'].unfix()
    c.o['b'].unconstrain()
    for t in tops(lab):
        lab.check('original: ', names=lab.nodes(t))


class Watcher:
    def __init__(self):
        self.calls = []

    def changed(self, me, which=None):
        self.calls.append(me)


class Holder(GMod):
    """a model with inputs and a cached function of them"""
    @Cache_this(limit=2)
    def K(self, X):
        RUNS.append(self)
        return X[0] + 2. * X[1] + self.a[0]

    @Cache_this(limit=2)
    def twice(self, X):
        return X[0] + X[0] + self.a[0] + self.a[0]


RUNS = []


@scenario('arrays', bounds='observable arrays and parameters of one to three dimensions, alone, or observed by two observers (a method and a function): values, shape; changes of either side do not reach the other one or its observers', max_paths=(2000, 2000))
def arrays(H):
    sh = H.pick('shape', [(3,), (2, 2), (1, 2, 2), (1,)])
    vals = H.farray('v', sh)
    kind = H.pick('kind', ['ObsAr', 'Param', 'linked'])
    o = ObsAr(vals) if kind == 'ObsAr' else Param('p', vals)
    if kind == 'linked':
        m = GNode('m')
        m.link_parameter(o)
    w, u, calls = Watcher(), Watcher(), []
    o.add_observer(w, w.changed)
    o.add_observer(u, lambda me, which=None: calls.append(me))
    q = o.copy()
    H.check(type(q) is type(o) and q.shape == o.shape and q is not o, 'the same type and shape')
    H.eq(q, o, 'the same values')
    H.check(w.calls == [] and calls == [], 'observers of the original are not called by copying')
    old = flat(o)
    q[...] = 3.
    H.check(w.calls == [] and calls == [], 'observers of the original are not called by changes of the copy')
    H.eq(flat(o), old, 'the original is unchanged')
    q2 = q.copy()
    o[...] = 4.
    H.check(len(w.calls) == 1 and len(calls) == 1 and w.calls[0] is o and calls[0] is o, 'observers of the original are called once by changes of it')
    H.eq(flat(q), [3. for v in old], 'the copy is unchanged')
    H.eq(flat(q2), [3. for v in old], 'the copy of the copy is unchanged')


@scenario('cached', bounds='a model with an observable array of inputs and cached functions of it and the parameters, copied before or after calls: changes of the inputs or parameters of either side, results of the cached functions of both, '
          'no result of one side is computed again because of a change of the other', max_paths=(3000, 20000))
def cached(H):
    m = Holder('m')
    a = H.reals('a', 2)
    m.link_parameter(Param('a', np.array(a)))
    x = H.reals('x', 2)
    m.X = ObsAr(np.array(x))
    called = H.choice('called', 3)
    if called > 0:
        m.K(m.X)
    if called > 1:
        m.twice(m.X)
    off = H.bool('caching_off')
    if off and called:
        m.cache.disable_caching()
    c = m.copy()
    H.check(c.X is not m.X and type(c.X) is ObsAr, 'the inputs are copied')
    val = {0: (list(x), list(a)), 1: (list(x), list(a))}
    both = {0: m, 1: c}
    for s in range(2):
        side = H.choice('s%d' % s, 2)
        o, other = both[side], both[1 - side]
        what = H.pick('what%d' % s, ['inputs', 'parameters', 'nothing'])
        H.label(side, what)
        for b in (m, c):
            b.K(b.X)
        v = H.real('v%d' % s)
        if what == 'inputs':
            o.X[0] = v
            val[side][0][0] = v
        elif what == 'parameters':
            o.a[0] = v
            val[side][1][0] = v
        del RUNS[:]
        for k in (1 - side, side):
            b, (xs, ps) = both[k], val[k]
            H.eq(flat(b.X), xs, 'the inputs of each side')
            H.eq(flat(b.a), ps, 'the parameters of each side')
            H.eq(b.K(b.X), xs[0] + 2. * xs[1] + ps[0], 'the cached function of the current contents')
            H.eq(b.twice(b.X), 2. * (xs[0] + ps[0]), 'the cached function of the current contents')
        if not off:
            H.check(not any(r is other for r in RUNS), 'a change of one side does not drop results of the other')
