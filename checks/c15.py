"""Pickling round-trips the whole model."""
import io, os, pickle, tempfile
import numpy as np
from symx.harness import scenario
import paramz
from paramz import ObsAr, Param, transformations as T
from paramz.caching import Cache_this
from .lab import Lab, SPECS, LOG, Twice, flat, write, constrain_op, do, lab_ops, tops, pos_of
from .copylab import GNode, GMod, clone, same_structure, check_gradient, check_vector, decorate_some, make, state


def through(H, o, ways=('dumps', 'pickle', 'dumps2', 'dumps4'), tag=''):
    way = H.pick('form' + tag, ways)
    if way == 'pickle':
        f = io.BytesIO()
        o.pickle(f)
        return pickle.loads(f.getvalue())
    if way == 'load':
        f = io.BytesIO()
        o.pickle(f)
        f.seek(0)
        return paramz.load(f)
    if way == 'file':
        with tempfile.TemporaryDirectory() as d:
            o.pickle(os.path.join(d, 'model'))
            return paramz.load(os.path.join(d, 'model'))
    return pickle.loads(pickle.dumps(o, {'dumps': -1, 'dumps2': 2, 'dumps4': 4}[way]))


def loaded(H, lab, nm, ways=('dumps', 'pickle', 'dumps2', 'dumps4'), tag=''):
    before = state(lab)
    grad = [list(flat(lab.o[n].gradient_full)) for n in lab.o]
    del LOG[:]
    o = through(H, lab.o[nm], ways, tag)
    c = clone(lab, nm, o)
    old = set(map(id, lab.o.values()))
    H.check(not any(id(x) in old for x in LOG), 'pickling does not notify the original')
    H.check(state(lab) == before, 'pickling leaves the original as it was')
    for n, g in zip(lab.o, grad):
        H.eq(flat(lab.o[n].gradient_full), g, 'pickling leaves the gradients of the original as they were')
    return c


@scenario('equal', bounds='three hierarchies of five elements, any element constrained and any fixed (or none), any object pickled (as a string, to an open file, to a path, loaded by pickle or paramz): structure, names, values, constraints, fixes, gradients, optimizer vectors of both',
          quick=dict(shapes=['nested', 'deep', 'chain', 'solo', 'one'], ways=['dumps', 'pickle', 'load', 'file']), thorough=dict(shapes=sorted(SPECS), ways=['dumps', 'pickle', 'load', 'file', 'dumps2', 'dumps4']), max_paths=(9000, 60000))
def equal(H, shapes, ways):
    lab = make(H, shapes)
    lab.root.optimizer_array
    c = loaded(H, lab, H.pick('pickled', list(lab.o)), ways)
    same_structure(H, lab, c, 'loaded: ')
    for t, l in (('loaded: ', c), ('original: ', lab)):
        l.check(t)
        check_gradient(H, l, t)
        check_vector(H, l, t)
    H.observe('values', flat(c.root.param_array))


def updates(lab, l):
    """names of the objects in the order in which they were updated"""
    return [n for o in LOG for n in l.o if l.o[n] is o]


@scenario('works', bounds='any object pickled, then one change (a write in 8 or all 20 ways, constraining, fixing, unconstraining, linking, moving, unlinking) of the loaded or the original hierarchy: the same updates as before pickling run, the other side is unchanged',
          quick=dict(shapes=['nested', 'one'], copies=None, ways=None), thorough=dict(shapes=sorted(SPECS), copies=None, ways=None), max_paths=(9000, 100000))
def works(H, shapes, copies, ways):
    lab = make(H, shapes, few=True)
    c = loaded(H, lab, H.pick('pickled', [n for n in lab.o if not copies or n in copies]), ('dumps',))
    side = H.choice('changed', 2)
    l, other = (lab, c) if side == 0 else (c, lab)
    before = state(other)
    del LOG[:]
    k = H.pick('kind', ['write', 'constrain', 'structure', 'updates'])
    if k == 'write':
        nm = write(H, l, ways=ways)
        way = l.last[1]
        if way not in ('param_array', 'values'):
            path = []
            while nm is not None:
                path.append(nm)
                nm = l.parent.get(nm)
            ran = updates(l, l)
            H.check(all(ran.count(n) >= 1 for n in path if n in l.kids), 'changes of the values update everything above')
            if way in ('iadd', 'attr', 'slice_fill') or l.last[0] == l.rootname:
                H.check(all(ran.count(n) <= 1 for n in l.kids), 'every object is updated once')
    elif k == 'constrain':
        constrain_op(H, l)
    elif k == 'structure':
        l.leaf('d', 1)
        l.parent['d'] = None
        ops = lab_ops(l)
        if l.rootname in l.ref or not ops:
            return
        op = H.pick('op', ops)
        H.label(*op)
        do(l, op)
    else:
        l.root.update_model(False)
    for t in tops(l):
        l.check('changed: ', names=l.nodes(t))
    other.check('other: ')
    H.check(state(other) == before, 'the other one is unchanged')
    ids = set(map(id, other.o.values()))
    H.check(not any(id(o) in ids for o in LOG), 'the other one is not notified')
    check_gradient(H, other, 'other: ')
    check_vector(H, other, 'other: ')


MAKE = {
    'Logexp': T.Logexp, 'Exponent': T.Exponent, 'NegativeLogexp': T.NegativeLogexp, 'NegativeExponent': T.NegativeExponent, 'Square': T.Square,
    'Logistic': lambda: T.Logistic(0, 1), 'Logistic2': lambda: T.Logistic(-3, 4), 'fixed': lambda: 'fixed', 'Twice': Twice,
}


@scenario('constraints', bounds='every built-in transformation or fix on some elements of a parameter: after loading the constraint is the same object as a newly made equal one, and can be removed by it',
          quick=dict(), thorough=dict(), max_paths=(2000, 2000))
def constraints(H):
    lab = Lab(H, ('root', [('a', 2), ('n', [('b', 1)])]), cls=GNode, root_cls=GMod, lo=0.25, hi=0.75)
    name = H.pick('transformation', sorted(MAKE))
    mk = MAKE[name]
    where = H.pick('where', [0, 1, 2])
    sel = lambda l: [l.o['a'][1:], l.o['n'], l.o['b']][where]
    if name == 'fixed':
        sel(lab).fix()
    elif name.startswith('Neg'):
        sel(lab)[Ellipsis if where != 1 else slice(None)] = -0.5
        sel(lab).constrain(mk())
    else:
        sel(lab).constrain(mk())
    vals = flat(lab.root.param_array)
    c = clone(lab, 'root', loaded_root(H, lab))
    H.eq(flat(c.root.param_array), vals, 'values are loaded')
    key = [k for k, v in c.root.constraints.items()]
    H.check(len(key) == 1, 'one constraint is loaded')
    if name != 'fixed':
        H.check(key[0] is mk(), 'the loaded constraint is the same object as a new equal one')
    for l in (c, lab):
        how = H.pick('how' + str(l is c), ['own', 'all', 'root'])
        o = l.root if how == 'root' else sel(l)
        if name == 'fixed':
            H.check(sel(l).is_fixed, 'fixed after loading')
            o.unfix() if how != 'all' else o.unconstrain()
        else:
            o.unconstrain(mk()) if how != 'all' else o.unconstrain()
        H.check(list(l.root.constraints.items()) == [] and len(l.root.optimizer_array) == 3, 'the constraint can be removed by an equal one')
        H.eq(flat(l.root.optimizer_array), vals, 'and the vector is that of the unconstrained values')


def loaded_root(H, lab):
    return pickle.loads(pickle.dumps(lab.root))


@scenario('arrays', bounds='observable arrays and unlinked parameters of one to three dimensions: values, shape, type and name; observers of the original are not called and not lost', max_paths=(2000, 2000))
def arrays(H):
    sh = H.pick('shape', [(3,), (2, 2), (1, 2, 2), (1,)])
    vals = H.farray('v', sh)
    kind = H.pick('kind', ['ObsAr', 'Param'])
    o = ObsAr(vals) if kind == 'ObsAr' else Param('p', vals)
    calls = []

    class W:
        pass
    w = W()
    o.add_observer(w, lambda me, which=None: calls.append(me))
    if kind == 'Param':
        o[..., :1].fix()
    q = through(H, o, ('dumps', 'pickle')) if kind == 'Param' else through(H, o, ('dumps', 'dumps2'))
    H.check(type(q) is type(o) and q.shape == o.shape, 'the same type and shape')
    H.eq(q, o, 'the same values')
    if kind == 'Param':
        H.check(q.name == 'p' and sorted(q.constraints['fixed']) == sorted(o.constraints['fixed']), 'the same name and fixes')
        H.eq(flat(q.optimizer_array), flat(o.optimizer_array), 'the same optimizer vector')
    del calls[:]
    old = flat(o)
    q[...] = 3.
    H.check(calls == [], 'observers of the original are not called')
    H.eq(flat(o), old, 'the original is unchanged')
    o[...] = 4.
    H.check(len(calls) == 1 and calls[0] is o, 'observers of the original are called')


@scenario('twice', bounds='pickling the loaded object again, copying it, and with updates off', quick=dict(shapes=['deep', 'chain']), thorough=dict(shapes=sorted(SPECS)), max_paths=(3000, 30000))
def twice(H, shapes):
    lab = make(H, shapes, few=True)
    off = H.bool('updates_off')
    if off:
        lab.root.update_model(False)
    c = loaded(H, lab, H.pick('pickled', list(lab.o)), ('dumps',))
    if H.bool('change'):
        write(H, c, ways=['iadd', 'optimizer', 'attr'])
    if H.bool('copy'):
        d = clone(c, c.rootname, c.root.copy())
    else:
        d = loaded(H, c, H.pick('again', list(c.o)), ('dumps',), '2')
    same_structure(H, c, d, 'again: ')
    d.check('again: ')
    H.check(all(o.update_model() is not off for o in d.o.values()), 'the update setting is kept')
    if not off:
        check_gradient(H, d, 'again: ')
    check_vector(H, d, 'again: ') if not off else None


@scenario('again', bounds='pickling any object, changing the original (a write, a constraint or fix, moving or unlinking a part), pickling any object again: the second loaded object equals the changed state, the first one is as it was',
          quick=dict(shapes=['nested']), thorough=dict(shapes=['chain', 'deep', 'nested']), max_paths=(9000, 60000))
def again(H, shapes):
    lab = make(H, shapes, few=True)
    first = H.pick('first', list(lab.o))
    c = loaded(H, lab, first, ('dumps',))
    k = H.pick('kind', ['write', 'constrain', 'structure'])
    if k == 'write':
        write(H, lab, ways=['item', 'optimizer'])
    elif k == 'constrain':
        constrain_op(H, lab)
    else:
        op = H.pick('op', lab_ops(lab))
        H.label(*op)
        do(lab, op)
    nm = H.pick('second', list(lab.o))
    d = loaded(H, lab, nm, ('dumps',), '2')
    H.check(not set(map(id, d.o.values())) & set(map(id, c.o.values())), 'nothing shared with the first one')
    same_structure(H, lab, d, 'second: ')
    d.check('second: ')
    check_vector(H, d, 'second: ')
    check_gradient(H, d, 'second: ')
    c.check('first: ')
    check_vector(H, c, 'first: ')


class Holder(GMod):
    """a model with inputs and a cached function of them"""
    @Cache_this(limit=2)
    def K(self, X):
        RUNS.append(self)
        return X[0] + 2. * X[1] + self.a[0]


RUNS = []


@scenario('cached', bounds='a model with an observable array of inputs and a cached function of it and the parameters, pickled before or after calls: changes of the inputs or parameters of either side, results of the cached functions of both, '
          'no result of one side is computed again because of a change of the other', max_paths=(3000, 20000))
def cached(H):
    m = Holder('m')
    a = H.reals('a', 2)
    m.link_parameter(Param('a', np.array(a)))
    x = H.reals('x', 2)
    m.X = ObsAr(np.array(x))
    if H.bool('called'):
        m.K(m.X)
    c = through(H, m, ('dumps', 'load'))
    H.check(c.X is not m.X and type(c.X) is ObsAr, 'the inputs are loaded')
    val = {0: (list(x), list(a)), 1: (list(x), list(a))}
    both = {0: m, 1: c}
    for s in range(2):
        side = H.choice('s%d' % s, 2)
        o, other = both[side], both[1 - side]
        what = H.pick('what%d' % s, ['inputs', 'parameters', 'nothing'])
        H.label(side, what)
        for b in (m, c):
            b.K(b.X)
        v = H.real('v%d' % s)
        if what == 'inputs':
            o.X[0] = v
            val[side][0][0] = v
        elif what == 'parameters':
            o.a[0] = v
            val[side][1][0] = v
        del RUNS[:]
        for k in (1 - side, side):
            b, (xs, ps) = both[k], val[k]
            H.eq(flat(b.X), xs, 'the inputs of each side')
            H.eq(flat(b.a), ps, 'the parameters of each side')
            H.eq(b.K(b.X), xs[0] + 2. * xs[1] + ps[0], 'the cached function of the current contents')
        H.check(not any(r is other for r in RUNS), 'a change of one side does not drop results of the other')
