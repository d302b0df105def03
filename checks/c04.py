"""Constraining an indexed parameter affects exactly the addressed elements."""
import numpy as np
from symx.harness import scenario
from .lab import Lab, TA, TB, Opaque, flat
from .indexing import addressed, real_index, pick_slice, pick_list, pick_mask


class Bump(Opaque):
    """domain: whatever is bumped by ten once"""
    def initialize(self, f):
        return f + 10.


PLACES = ['alone', 'first', 'behind', 'deep']


def build(H, shape, place):
    if place == 'alone':
        spec = ('root', [('p', shape)])
    elif place == 'first':
        spec = ('root', [('p', shape), ('b', 1)])
    elif place == 'behind':
        spec = ('root', [('a', 2), ('p', shape)])
    else:
        spec = ('root', [('a', 1), ('n', [('b', 1), ('p', shape), ('c', 1)]), ('d', 1)])
    lab = Lab(H, spec)
    # there are constraints and fixes already
    for l in lab.leaves():
        p, el = lab.o[l], lab.ref[l]
        if l == 'p':
            sel = tuple(slice(0, 1) for _ in shape)
            p[sel].constrain(TA())
            el[0].con = TA()
            last = tuple(slice(s - 1, s) for s in shape)
            p[last].fix()
            el[-1].fixed = True
        else:
            p.constrain(TB())
            for e in el:
                e.con = TB()
    lab.check('before: ')
    return lab


OPS = ['constrain', 'fix', 'fix_value', 'unfix', 'unconstrain', 'unconstrain_TA']


def apply(H, lab, ix, op, tag):
    p, el = lab.o['p'], lab.ref['p']
    H.label(op, ix if not hasattr(ix, 'bits') else ix.bits)
    addr = addressed(p.shape, ix)
    h = p[real_index(ix)]
    if op == 'constrain':
        h.constrain(Bump())
        for i in set(addr):
            el[i].v, el[i].con, el[i].fixed = el[i].v + 10., Bump(), False
    elif op == 'fix':
        h.fix()
        for i in set(addr):
            el[i].fixed = True
    elif op == 'fix_value':
        v = H.real(tag + 'value')
        h.constrain_fixed(v)
        for i in set(addr):
            el[i].v, el[i].fixed = v, True
    elif op == 'unfix':
        h.unfix()
        for i in set(addr):
            el[i].fixed = False
    elif op == 'unconstrain':
        h.unconstrain()
        for i in set(addr):
            el[i].con, el[i].fixed = None, False
    else:
        h.unconstrain(TA())
        for i in set(addr):
            if el[i].con is TA():
                el[i].con = None
    lab.check('after %s: ' % op)


def listed(H, lab, ix):
    """constraints per addressed element"""
    p, el = lab.o['p'], lab.ref['p']
    addr = addressed(p.shape, ix)
    h = p[real_index(ix)]
    H.eq(flat(h), [el[i].v for i in addr], 'the handle shows the addressed elements')
    got = h.constraints.properties_for(np.array(addr, dtype=int))
    H.check(len(got) == len(addr), 'one list of constraints per addressed element')
    for i, g in zip(addr, got):
        want = set(([el[i].con] if el[i].con is not None else []))
        H.check(set(t for t in g if t != 'fixed') == want and ('fixed' in [t for t in g if t == 'fixed']) == el[i].fixed,
                'constraints listed per element are those of the element')


def run(H, shape, place, ix, seq):
    lab = build(H, shape, place)
    for s, op in enumerate(seq):
        apply(H, lab, ix, op, 's%d' % s)
    if addressed(shape, ix):
        listed(H, lab, ix)
    H.observe('values', flat(lab.root.param_array))
    H.observe('free', int(lab.root._size_transformed()))


SEQ1 = ['constrain', 'fix', 'unfix', 'unconstrain']
SEQ2 = ['fix_value', 'unconstrain_TA', 'constrain', 'unfix']


@scenario('slices', bounds='one-dimensional parameter of length n, every slice with start and stop in -n-1..n+1 or absent and step 1, 2, -1, -2 or absent; behind other parameters; two sequences of four operations; arbitrary values',
          quick=dict(n=3, places=['behind']), thorough=dict(n=4, places=PLACES), max_paths=(3000, 60000))
def slices(H, n, places):
    ix = pick_slice(H, 's', n)
    run(H, (n,), H.pick('place', places), ix, H.pick('seq', [SEQ1, SEQ2]))


@scenario('lists', bounds='one- and two-dimensional parameters, every list of k integers (negative and repeated included); four places in a hierarchy',
          quick=dict(k=2), thorough=dict(k=3), max_paths=(3000, 60000))
def lists(H, k):
    shape = H.pick('shape', [(3,), (2, 2)])
    ix = pick_list(H, 'i', shape[0], k)
    run(H, shape, H.pick('place', PLACES), ix, H.pick('seq', [SEQ1, SEQ2]))


@scenario('masks', bounds='one- and two-dimensional parameters, every boolean mask of the whole parameter and of the first axis; four places in a hierarchy',
          quick=dict(shapes=[(3,), (2, 2)]), thorough=dict(shapes=[(3,), (2, 2), (3, 2), (2, 1, 2)]), max_paths=(3000, 60000))
def masks(H, shapes):
    shape = H.pick('shape', shapes)
    if H.bool('whole'):
        ix = pick_mask(H, 'm', shape)
    else:
        ix = [H.bool('m_%d' % i) for i in range(shape[0])]
    run(H, shape, H.pick('place', PLACES), ix, H.pick('seq', [SEQ1, SEQ2]))


def pick_axis(H, name, n, kinds):
    kind = H.pick(name + '_kind', kinds)
    if kind == 'int':
        return H.choice(name, 2 * n) - n
    if kind == 'all':
        return slice(None)
    if kind == 'slice':
        return H.pick(name + '_slice', [slice(0, 1), slice(1, None), slice(None, None, -1), slice(-1, None), slice(0, n, 2)])
    return pick_list(H, name, n, 2)


@scenario('matrix', bounds='two-dimensional parameters, every pair of integer, slice (five of them), whole axis or list of two integers (at most one list, integers only with slices), and Ellipsis',
          quick=dict(shapes=[(2, 3)], places=['deep']), thorough=dict(shapes=[(2, 3), (3, 2), (1, 3)], places=PLACES), max_paths=(3000, 60000))
def matrix(H, shapes, places):
    shape = H.pick('shape', shapes)
    form = H.pick('form', ['pair', 'first', 'last'])
    if form == 'first':
        ix = pick_axis(H, 'r', shape[0], ['int', 'slice', 'list'])
        if H.bool('dots'):
            ix = (ix, Ellipsis)
    elif form == 'last':
        ix = (Ellipsis, pick_axis(H, 'c', shape[1], ['int', 'slice', 'list']))
    else:
        r = pick_axis(H, 'r', shape[0], ['int', 'slice', 'list', 'all'])
        c = pick_axis(H, 'c', shape[1], ['slice', 'all'] if isinstance(r, (list, int)) else ['int', 'slice', 'list', 'all'])
        ix = (r, c)
    run(H, shape, H.pick('place', places), ix, H.pick('seq', [SEQ1, SEQ2]))


@scenario('cube', bounds='three-dimensional parameter (2, 2, 2), every triple of integer, slice or whole axis; Ellipsis before, between or behind',
          quick=dict(places=['behind'], kinds=['int', 'all']), thorough=dict(places=PLACES, kinds=['int', 'slice', 'all']), max_paths=(3000, 60000))
def cube(H, places, kinds):
    shape = (2, 2, 2)
    form = H.pick('form', ['one', 'two', 'three', 'dots', 'last', 'before'])
    if form == 'last':
        ix = (Ellipsis, pick_axis(H, 'z', 2, ['int', 'slice', 'list']))
    elif form == 'before':
        ix = (Ellipsis, pick_axis(H, 'y', 2, ['all', 'slice']), pick_axis(H, 'z', 2, ['int', 'all', 'slice']))
    elif form == 'one':
        ix = (pick_axis(H, 'x', 2, kinds),)
    elif form == 'two':
        ix = (pick_axis(H, 'x', 2, kinds), pick_axis(H, 'y', 2, kinds))
    elif form == 'three':
        x, y, z = pick_axis(H, 'x', 2, kinds), pick_axis(H, 'y', 2, kinds), pick_axis(H, 'z', 2, ['all', 'slice'])
        ix = (x, y, z)
    else:
        ix = (pick_axis(H, 'x', 2, kinds), Ellipsis, pick_axis(H, 'z', 2, kinds))
    run(H, shape, H.pick('place', places), ix, H.pick('seq', [SEQ1, SEQ2]))


@scenario('again', bounds='two different indices of the same parameter after each other (lists of n zeros and ones, masks, slices and integers), fixing and releasing the first, then constraining or fixing the second',
          quick=dict(shapes=[(3,), (2, 2)]), thorough=dict(shapes=[(3,), (2, 2), (4,), (3, 1)]), max_paths=(6000, 60000))
def again(H, shapes):
    shape = tuple(H.pick('shape', [tuple(s) for s in shapes]))
    n = shape[0]

    def index(t):
        kind = H.pick(t + 'kind', ['list', 'mask', 'slice', 'int'])
        if kind == 'list':
            return [H.choice('%si%d' % (t, k), 2) for k in range(n)]
        if kind == 'mask':
            return [H.bool('%sm%d' % (t, k)) for k in range(n)]
        if kind == 'slice':
            return H.pick(t + 'slice', [slice(0, 1), slice(1, None), slice(0, 1, None), slice(None), slice(None, None, -1)])
        return H.choice(t + 'i', n) if len(shape) > 1 else slice(H.choice(t + 'i', n), n)
    lab = build(H, shape, 'behind')
    first = index('first_')
    apply(H, lab, first, 'fix', 'a')
    apply(H, lab, first, 'unfix', 'b')
    second = index('second_')
    apply(H, lab, second, H.pick('op', ['constrain', 'fix']), 'c')
    if addressed(shape, second):
        listed(H, lab, second)
