"""Objective and gradients as the optimizer sees them."""
import numpy as np
from symx.harness import scenario
from .lab import flat, free_elems, Twice, Flip
from .modlab import uf_model, Script, Recip, set_elem, put, expected

SPEC = ('root', [('a', (2, 1)), ('n', [('b', 1)])])
STATES = [(None, False), (Recip, False), (Twice, False), (None, True), (Recip, True)]
CALLS = ['f', 'fp', 'f_fp']


def evaluate(H, lab, which, w, f_fp, f, fp, tag):
    H.label(which, tag)
    x = np.array(w)
    put(lab, w)
    F, g, tg = expected(H, lab)
    if which in ('f', 'f_fp'):
        r = f(x) if which == 'f' else f_fp(x)
        if which == 'f_fp':
            H.eq(r[0], F, 'the objective is the one of the model at the given vector')
            H.eq(flat(r[1]), tg, 'the gradient follows the chain rule at the given vector')
        else:
            H.eq(r, F, 'the objective is the one of the model at the given vector')
    else:
        H.eq(flat(fp(x)), tg, 'the gradient follows the chain rule at the given vector')
    H.eq(flat(x), w, 'the vector given is not changed')
    lab.check(tag)
    H.eq(flat(lab.root.gradient), g, 'the gradient stored in the model is its own gradient')
    for l in lab.leaves():
        off = [i for i, e in enumerate(lab.elems()) if e in lab.ref[l]]
        H.eq(flat(lab.o[l].gradient), [g[i] for i in off], 'the gradient stored in every parameter is its own gradient')


def vectors(H, n, k, t=''):
    return [H.reals('%sx%d_' % (t, j), n, nonzero=True) for j in range(k)]


def run(H, lab, seq, nvec, t=''):
    n = len(free_elems(lab.elems()))
    vecs = vectors(H, n, nvec, t)

    def script(x0, f_fp, f, fp):
        for k, (which, v) in enumerate(seq):
            evaluate(H, lab, which, vecs[v], f_fp, f, fp, 'evaluation %d: ' % k)
        return np.array(vecs[0]), 0.
    lab.root.optimize(optimizer=Script(script))
    H.observe(t + 'gradient', flat(lab.root.gradient))


@scenario('all_assignments', bounds='model of three elements on two levels, every assignment of none, two constraints (one with value-dependent derivative), fixed, or constrained and fixed; evaluations of both kinds at two arbitrary vectors; arbitrary objective and gradient functions', max_paths=(3000, 20000))
def all_assignments(H):
    lab = uf_model(H, SPEC)
    for l, k in (('a', 0), ('a', 1), ('b', 0)):
        c, fx = H.pick('state_%s%d' % (l, k), STATES)
        set_elem(lab, l, k, c() if c else None, fx)
    if not free_elems(lab.elems()):
        return
    run(H, lab, [('f_fp', 0), ('fp', 1), ('f', 0), ('fp', 0)], 2)


@scenario('all_orders', bounds='the same model with one constrained, one fixed and one free element: every sequence of L evaluations of objective, gradient or both at two arbitrary vectors',
          quick=dict(L=3), thorough=dict(L=5), max_paths=(3000, 20000))
def all_orders(H, L):
    lab = uf_model(H, SPEC)
    j = H.choice('fixed', 3)
    names = [('a', 0), ('a', 1), ('b', 0)]
    for k, (l, i) in enumerate(names):
        set_elem(lab, l, i, Recip() if k != (j + 1) % 3 else None, k == j)
    seq = [(H.pick('call%d' % s, CALLS), H.choice('vec%d' % s, 2)) for s in range(L)]
    run(H, lab, seq, 2)


@scenario('overlapping', bounds='constraints set on whole nodes, then on parameters and elements, then unfixed: evaluations of both kinds at arbitrary vectors', max_paths=(3000, 20000))
def overlapping(H):
    lab = uf_model(H, SPEC)
    from .lab import constrain_op
    for s in range(2):
        constrain_op(H, lab, 's%d_' % s, cons=(Twice, Flip), ops=('constrain', 'fix', 'unfix', 'unconstrain'))
    if not free_elems(lab.elems()):
        return
    run(H, lab, [('f_fp', 0), ('f_fp', 0), ('fp', 0)], 1)


@scenario('again', bounds='the same model with one element constrained or fixed, optimized (evaluations of both kinds), then that element released and any other one constrained or fixed, then optimized again', max_paths=(3000, 20000))
def again(H):
    lab = uf_model(H, SPEC)
    names = [('a', 0), ('a', 1), ('b', 0)]
    for t in ('first', 'second'):
        l, i = H.pick(t, names)
        c, fx = H.pick(t + '_state', STATES[1:4])
        set_elem(lab, l, i, c() if c else None, fx)
        H.label(t, l, i, c, fx)
        run(H, lab, [('f_fp', 0), ('fp', 1), ('f', 0)], 2, t)
        e, p = lab.ref[l][i], lab.o[l]
        (p.unfix if fx else p.unconstrain)()
        e.con, e.fixed = None, False
