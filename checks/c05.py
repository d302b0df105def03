"""One copy of all values and gradients, readable and writable at every level."""
import numpy as np
from symx.harness import scenario, Known
from .lab import Lab, SPECS, lab_ops, do, tops, flat, write, pos_of


def set_grads(H, lab, tag='g'):
    for l in lab.ref:
        g = H.reals(tag + l, len(lab.ref[l]))
        lab.o[l].gradient = np.array(g).reshape(lab.o[l].shape)
        lab.g[l] = g


def grads(lab, nm):
    return [x for l in lab.leaves(nm) for x in lab.g[l]]


def check_grads(H, lab, tag):
    for t in tops(lab):
        for nm in lab.nodes(t):
            if lab.elems(nm):
                H.eq(flat(lab.o[nm].gradient_full), grads(lab, nm), tag + 'gradients of every element at every level')
                H.eq(flat(lab.o[nm].gradient), grads(lab, nm), tag + 'gradients of every element at every level')


def write_grad(H, lab):
    names = [n for t in tops(lab) for n in lab.nodes(t) if lab.elems(n)]
    nm = H.pick('gwhere', names)
    o, n = lab.o[nm], len(lab.elems(nm))
    leaf = nm in lab.ref
    way = H.pick('gway', ['set', 'scalar', 'item', 'full'] + (['slice_item', 'slice_set'] if leaf else []))
    H.label('gradient', nm, way)
    i = 0
    if way == 'set':
        w = H.reals('gw', n)
        o.gradient = np.array(w).reshape(o.shape) if leaf else np.array(w)
    elif way == 'scalar':
        w = [H.real('gw')] * n
        o.gradient = w[0]
    else:
        w = [H.real('gw')]
        i = H.choice('gi', n)
        if way == 'item':
            o.gradient[pos_of(o, i) if leaf else i] = w[0]
        elif way == 'full':
            o.gradient_full[pos_of(o, i) if leaf else i] = w[0]
        elif way == 'slice_item':
            p = pos_of(o, i)
            o[p[0]:p[0] + 1].gradient[(0,) + p[1:]] = w[0]
        else:
            r = n // o.shape[0]
            o[i // r:i // r + 1].gradient = w[0]
            i, w = i // r * r, w * r
    off = 0
    for l in lab.leaves(nm):
        for k in range(len(lab.g[l])):
            if i <= off < i + len(w):
                lab.g[l][k] = w[off - i]
            off += 1


def check_all(H, lab, tag):
    for t in tops(lab):
        lab.check(tag, names=lab.nodes(t), cons=False)
    check_grads(H, lab, tag)


def start(H, shape, loose=False):
    lab = Lab(H, SPECS[shape])
    lab.g = {}
    if loose:
        lab.leaf('d', (1, 2))
        lab.parent['d'] = None
    set_grads(H, lab)
    return lab


@scenario('write', bounds='three hierarchies of five elements, one write of arbitrary values at any place in any of 20 ways',
          quick=dict(shapes=['nested', 'deep', 'chain', 'solo', 'one']), thorough=dict(shapes=sorted(SPECS)), max_paths=(3000, 60000))
def write_values(H, shapes):
    lab = start(H, H.pick('shape', shapes))
    check_all(H, lab, 'before: ')
    write(H, lab)
    check_all(H, lab, 'after writing: ')
    H.observe('root', flat(lab.root.param_array))


@scenario('write_gradient', bounds='three hierarchies of five elements, one write of arbitrary gradients at any place in any of six ways',
          quick=dict(shapes=['nested', 'deep', 'chain', 'solo', 'one']), thorough=dict(shapes=sorted(SPECS)), max_paths=(3000, 60000))
def write_gradients(H, shapes):
    lab = start(H, H.pick('shape', shapes))
    write_grad(H, lab)
    check_all(H, lab, 'after writing: ')
    H.observe('root', flat(lab.root.gradient_full))


@scenario('restructure', bounds='any L operations of link at any position, move and unlink on three hierarchies of five elements and a loose parameter of two, then one write of all values and all gradients on one side: values and gradients at every level of every resulting hierarchy',
          quick=dict(shapes=['nested', 'deep', 'chain', 'solo', 'one'], L=1), thorough=dict(shapes=sorted(SPECS), L=2), max_paths=(3000, 60000))
def restructure(H, shapes, L):
    lab = start(H, H.pick('shape', shapes), True)
    for s in range(L):
        op = H.pick('op%d' % s, lab_ops(lab))
        H.label(*op)
        do(lab, op)
    check_all(H, lab, 'after restructuring: ')
    for t in tops(lab):
        el = lab.elems(t)
        if not el:
            continue
        o = lab.o[t]
        v = H.reals('v' + t, len(el))
        # write at the top, then read everywhere; write at the leaves, then read everywhere
        o[:] = np.array(v).reshape(o.shape) if t in lab.ref else np.array(v)
        for e, x in zip(el, v):
            e.v = x
        check_all(H, lab, 'after writing the root: ')
        for l in lab.leaves(t):
            w = H.reals('w' + l, len(lab.ref[l]))
            lab.o[l][...] = np.array(w).reshape(lab.o[l].shape)
            for e, x in zip(lab.ref[l], w):
                e.v = x
    check_all(H, lab, 'after writing the parameters: ')
    set_grads(H, lab, 'h')
    check_all(H, lab, 'after writing the gradients: ')
    for t in tops(lab):
        n = len(lab.elems(t))
        if t in lab.kids and n:
            i = H.choice('gi_' + t, n)
            x = H.real('gx_' + t)
            lab.o[t].gradient_full[i] = x
            l, k = lab.locate(i, t)
            lab.g[l][k] = x
    check_all(H, lab, 'after writing gradients at the root: ')


@scenario('restructure_write', bounds='one operation of link, move or unlink on three hierarchies, then one write anywhere in any of 20 ways',
          quick=dict(shapes=['nested']), thorough=dict(shapes=sorted(SPECS)), max_paths=(24000, 200000))
def restructure_write(H, shapes):
    lab = start(H, H.pick('shape', shapes), True)
    op = H.pick('op', lab_ops(lab))
    H.label(*op)
    do(lab, op)
    if H.bool('values'):
        write(H, lab)
    else:
        write_grad(H, lab)
    check_all(H, lab, 'after writing: ')


@scenario('read', bounds='every hierarchy of five elements: reading any node or parameter by index, slice, step, list, mask, everything, and writing None', max_paths=(6000, 60000))
def read(H):
    lab = start(H, H.pick('shape', sorted(SPECS)))
    nm = H.pick('where', [n for n in lab.nodes('root') if lab.elems(n)])
    o, vals = lab.o[nm], [e.v for e in lab.elems(nm)]
    n, leaf = len(vals), nm in lab.ref
    kind = H.pick('kind', ['int', 'slice', 'step', 'back', 'array', 'mask', 'all', 'tuple', 'none'])
    H.label(nm, kind)
    w = o if not leaf or len(o.shape) == 1 else o.values.reshape(-1)
    got = None
    if kind == 'int':
        i = H.choice('i', 2 * n) - n
        got, want = [w[i]], [vals[i]]
    elif kind == 'slice':
        a, b = H.choice('a', n + 1), H.choice('b', n + 1)
        got, want = w[a:b], vals[a:b]
    elif kind == 'step':
        a = H.choice('a', 2)
        got, want = w[a::2], vals[a::2]
    elif kind == 'back':
        got, want = w[::-1], vals[::-1]
    elif kind == 'array':
        i, j = H.choice('i', n), H.choice('j', n)
        got, want = w[np.array([i, j])], [vals[i], vals[j]]
    elif kind == 'mask':
        m = [H.bool('m%d' % i) for i in range(n)]
        got, want = w[np.array(m)], [v for v, b in zip(vals, m) if b]
    elif kind == 'all':
        got, want = w[...] if leaf else w[:], vals
    elif kind == 'tuple':
        i = H.choice('i', n)
        got, want = [w[(i,)]], [vals[i]]
    else:
        if not leaf:
            o[:] = None
            o['.*'] = None
        got, want = o.param_array, vals
    got = [x for g in got for x in flat(g)] if isinstance(got, list) else flat(got)
    H.eq(got, want, 'the elements of the index are read')
    check_all(H, lab, 'after reading: ')


@scenario('early_slice', bounds='a slice of a parameter of three elements taken before or after the parameter is linked, then a write through the parameter: the slice sees it')
def early_slice(H):
    from paramz import Param
    from .lab import Node
    p, m = Param('p', H.farray('p', 3)), Node('m')
    early = H.bool('early')
    if early:
        s = p[1:]
    m.link_parameter(p)
    if not early:
        s = p[1:]
    v = H.reals('v', 3)
    p[:] = np.array(v)
    H.eq(flat(s), v[1:], 'values written are read through a slice', known=Known('K1', early))
