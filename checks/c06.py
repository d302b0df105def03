"""The optimizer vector: one entry per free element, never stale, round trips."""
import numpy as np
from symx.harness import scenario
from paramz import transformations as T
from .lab import Lab, Node, SPECS, TA, Twice, Flip, flat, write, constrain_op, forward, inverse, free_elems, do, lab_ops, tops, pos_of


def check_vectors(H, lab, tag, order=None):
    for t in tops(lab):
        for nm in (order or lab.nodes(t)):
            el = lab.elems(nm)
            if not el:
                continue
            x = lab.o[nm].optimizer_array
            fr = free_elems(el)
            H.check(len(x) == len(fr), tag + 'one entry per non-fixed element')
            H.eq(flat(x), [inverse(e) for e in fr], tag + 'the vector is the transformation of the current values')
            H.eq(flat(lab.o[nm].unfixed_param_array), [e.v for e in fr], tag + 'the array of unfixed parameters has their values')
    lab.check(tag)


# raw access to the memory (param_array, values) bypasses the notification by design
NOTIFYING = ['whole', 'array', 'optimizer', 'item', 'rows', 'mask', 'list', 'iadd', 'imul', 'slice_iadd', 'slice_fill', 'attr', 'attr_array', 'regexp', 'getitem', 'slice', 'nodemask', 'nodelist', 'nodeitem']


def read_some(H, lab, tag):
    nm = H.pick(tag + 'read', ['none', lab.rootname] + [n for n in lab.o if n != lab.rootname])
    if nm != 'none' and lab.elems(nm):
        H.label('read', nm)
        lab.o[nm].optimizer_array


def assign(H, lab, tag=''):
    """any constraint and any fix on every element"""
    for l in lab.ref:
        p = lab.o[l]
        for i, e in enumerate(lab.ref[l]):
            s = H.choice('%sc_%s%d' % (tag, l, i), 5)
            sel = p[tuple(slice(q, q + 1) for q in pos_of(p, i))]
            if s in (1, 3, 4):
                c = [None, Twice, None, Flip, Twice][s]()
                sel.constrain(c)
                e.con = c
            if s in (2, 3, 4):
                sel.fix()
                e.fixed = True


SMALL = {
    'flat3': ('root', [('a', (2, 1)), ('b', 1)]),
    'nested3': ('root', [('a', 1), ('n', [('b', 1), ('c', 1)])]),
    'deep3': ('root', [('n', [('m', [('a', (1, 2))])]), ('b', 1)]),
}


@scenario('round_trip', bounds='three hierarchies of three elements, every assignment of none, a constraint, fixed, or fixed with the same or another constraint to every element, every node: read, write back, write an arbitrary vector, read again',
          quick=dict(shapes=['nested3', 'deep3']), thorough=dict(shapes=sorted(SMALL)), max_paths=(3000, 60000))
def round_trip(H, shapes):
    lab = Lab(H, SMALL[H.pick('shape', shapes)])
    assign(H, lab)
    check_vectors(H, lab, 'before: ')
    nm = H.pick('node', list(lab.o))
    o, el = lab.o[nm], lab.elems(nm)
    fr = free_elems(el)
    x = np.array(o.optimizer_array)
    o.optimizer_array = x
    check_vectors(H, lab, 'after writing back: ')
    w = H.reals('w', len(fr))
    o.optimizer_array = np.array(w)
    for e, v in zip(fr, w):
        e.v = forward(e, v)
    lab.check('after writing: ')
    H.eq(flat(o.optimizer_array), w, 'reading gives back the vector written')
    check_vectors(H, lab, 'after writing: ')
    H.observe('values', flat(lab.root.param_array))


@scenario('stale', bounds='hierarchies of five elements, L changes (any write of values in 20 ways, or any constraining, fixing, unfixing, unconstraining of any object or element), the vector of any object read before each: vectors of all objects',
          quick=dict(L=1, shapes=['nested', 'deep', 'chain', 'solo', 'one']), thorough=dict(L=2, shapes=sorted(SPECS)), max_paths=(6000, 150000))
def stale(H, L, shapes):
    lab = Lab(H, SPECS[H.pick('shape', shapes)])
    l = lab.leaves()[0]
    p = lab.o[l]
    p[0:1].constrain(Twice())
    lab.ref[l][0].con = Twice()
    p[1:2].fix()
    lab.ref[l][1].fixed = True
    for nm in lab.o:
        lab.o[nm].optimizer_array
    for s in range(L):
        if H.bool('s%d_value' % s):
            write(H, lab, 's%d_' % s, ways=NOTIFYING)
        else:
            constrain_op(H, lab, 's%d_' % s)
        if s < L - 1:
            read_some(H, lab, 's%d_' % s)
    check_vectors(H, lab, 'after: ')
    H.observe('x', flat(lab.root.optimizer_array))


@scenario('two_changes', bounds='hierarchy of three elements, two constraint changes (three kinds) on any object or element with the vector of any object read in between',
          quick=dict(shapes=sorted(SMALL)), thorough=dict(shapes=sorted(SMALL)), max_paths=(6000, 150000))
def two_changes(H, shapes):
    lab = Lab(H, SMALL[H.pick('shape', shapes)])
    ops = ('constrain', 'fix', 'unfix', 'unconstrain')
    constrain_op(H, lab, 's0_', cons=(Twice,), ops=ops)
    lab.root.optimizer_array
    constrain_op(H, lab, 's1_', cons=(Twice, Flip), ops=ops)
    check_vectors(H, lab, 'after: ')


@scenario('restructured', bounds='hierarchies of five elements with a loose parameter of two, one element constrained, one fixed; one link, move or unlink; then vectors of all objects, then writing an arbitrary vector at a root',
          quick=dict(shapes=['nested', 'deep', 'chain', 'solo', 'one']), thorough=dict(shapes=sorted(SPECS)), max_paths=(6000, 150000))
def restructured(H, shapes):
    lab = Lab(H, SPECS[H.pick('shape', shapes)])
    lab.leaf('d', 2)
    lab.parent['d'] = None
    for l, i, c in (('a', 0, Twice), ('a', 1, None), ('d', 0, None), ('d', 1, Flip)):
        s = lab.o[l][i:i + 1]
        if c is None:
            s.fix()
            lab.ref[l][i].fixed = True
        else:
            s.constrain(c())
            lab.ref[l][i].con = c()
    for nm in lab.o:
        lab.o[nm].optimizer_array
    op = H.pick('op', lab_ops(lab))
    H.label(*op)
    do(lab, op)
    check_vectors(H, lab, 'after restructuring: ')
    for t in tops(lab):
        fr = free_elems(lab.elems(t))
        if fr:
            w = H.reals('w' + t, len(fr))
            lab.o[t].optimizer_array = np.array(w)
            for e, v in zip(fr, w):
                e.v = forward(e, v)
    check_vectors(H, lab, 'after writing: ')


@scenario('private', bounds='hierarchies of five elements, any element constrained or fixed; the vector of any object is read or written, then overwritten: vectors of all objects',
          quick=dict(shapes=['nested', 'chain', 'solo', 'one']), thorough=dict(shapes=sorted(SPECS)), max_paths=(3000, 20000))
def private(H, shapes):
    lab = Lab(H, SPECS[H.pick('shape', shapes)])
    l = H.pick('leaf', lab.leaves())
    e = lab.ref[l][0]
    s = lab.o[l][tuple(slice(q, q + 1) for q in pos_of(lab.o[l], 0))]
    if H.bool('constrained'):
        s.constrain(Twice())
        e.con = Twice()
    if H.bool('fixed'):
        s.fix()
        e.fixed = True
    nm = H.pick('node', [n for n in lab.o if lab.elems(n)])
    fr = free_elems(lab.elems(nm))
    H.assume(len(fr) > 0)
    n = len(fr)
    if H.bool('written'):
        w = H.reals('w', n)
        x = np.array(w)
        lab.o[nm].optimizer_array = x
        for f, v in zip(fr, w):
            f.v = forward(f, v)
        if H.bool('read'):
            x = lab.o[nm].optimizer_array
    else:
        x = lab.o[nm].optimizer_array
    seen = flat(x)
    v = H.reals('v', n)
    x[:] = np.array(v)
    check_vectors(H, lab, 'after overwriting: ')
    y = lab.o[nm].optimizer_array
    H.eq(flat(y), seen, 'overwriting a vector read or written does not change the vector')
    lab.o[nm][:] = H.real('c')
    H.eq(flat(x), v, 'the vector read is not changed by the parameters')
    H.eq(flat(y), seen, 'the vector read is not changed by the parameters')


class Watching(Node):
    """reads the vectors of itself and of everything below in its callback"""
    def parameters_changed(self):
        lab = getattr(self, '_lab', None)
        if lab is not None:
            lab.seen[self.name] = {nm: flat(lab.o[nm].optimizer_array) for nm in lab.nodes(self.name) if lab.elems(nm)}


@scenario('inside', bounds='hierarchies of five elements, one constrained, one fixed, every vector read before; one write of values in 20 ways: the vectors of the node and of everything below, as read inside the callback of every node, and all vectors afterwards',
          quick=dict(shapes=['nested', 'chain', 'one']), thorough=dict(shapes=sorted(SPECS)), max_paths=(6000, 20000))
def inside(H, shapes):
    lab = Lab(H, SPECS[H.pick('shape', shapes)], cls=Watching)
    l = lab.leaves()[H.choice('leaf', len(lab.leaves()))]
    p = lab.o[l]
    sel = lambda i: p[tuple(slice(q, q + 1) for q in pos_of(p, i))]
    sel(0).constrain(Twice())
    lab.ref[l][0].con = Twice()
    if p.size > 1:
        sel(1).fix()
        lab.ref[l][1].fixed = True
    for nm in lab.o:
        lab.o[nm].optimizer_array
    lab.seen = {}
    for nm in lab.kids:
        lab.o[nm]._lab = lab
    write(H, lab, ways=NOTIFYING)
    for nm in lab.kids:
        for k, x in lab.seen.get(nm, {}).items():
            H.eq(x, [inverse(e) for e in free_elems(lab.elems(k))], 'a callback sees the vector of the values that were written')
    H.observe('callbacks', sorted(lab.seen))
    check_vectors(H, lab, 'after: ')


BUILTIN = [
    ('Logexp', lambda H: T.Logexp(), lambda v: v > 0),
    ('NegativeLogexp', lambda H: T.NegativeLogexp(), lambda v: v < 0),
    ('Exponent', lambda H: T.Exponent(), lambda v: v > 0),
    ('NegativeExponent', lambda H: T.NegativeExponent(), lambda v: v < 0),
    ('Square', lambda H: T.Square(), lambda v: v >= 0),
    ('Logistic', lambda H: T.Logistic(-1., 3.), lambda v: (v >= -1.) & (v <= 3.)),
]


@scenario('domains', bounds='every built-in constraint on one element, another one fixed, a third free: arbitrary vector with entries in [-20, 20]', max_paths=(2000, 20000), nice=True)
def domains(H):
    name, make, inside = H.pick('con', BUILTIN)
    lab = Lab(H, ('root', [('a', 1), ('n', [('b', 2)])]), lo=0.25, hi=2.)
    k = H.choice('which', 3)
    p, i = (lab.o['a'], 0) if k == 0 else (lab.o['b'], k - 1)
    if name.startswith('Neg'):
        lab.root[:] = -lab.root.param_array
    p[i:i + 1].constrain(make(H))
    j = H.choice('fixed', 3)
    if j != k:
        q, jj = (lab.o['a'], 0) if j == 0 else (lab.o['b'], j - 1)
        q[jj:jj + 1].fix()
    before = flat(lab.root.param_array)
    n = 3 if j == k else 2
    w = H.reals('w', n, lo=-20, hi=20)
    if name == 'Square':
        for x in w:
            H.assume(x >= 0)
    lab.root.optimizer_array = np.array(w)
    after = flat(lab.root.param_array)
    H.check(inside(after[k]), 'the value is in the domain of its constraint')
    if j != k:
        H.check(after[j] == before[j], 'fixed elements are unchanged')
    H.eq(flat(lab.root.optimizer_array), w, 'reading gives back the vector written')
    H.observe('v', after)
