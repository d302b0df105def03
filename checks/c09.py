"""Algebra of constrain, fix, unfix and unconstrain; one instance per transformation."""
import copy, pickle
import numpy as np
from symx.harness import scenario
from paramz import transformations as T
from .lab import Lab, SPECS, TA, TB, Twice, Flip, flat, constrain_op, tops, write, free_elems, pos_of
from .modlab import set_elem

SMALL = ('root', [('a', 2), ('n', [('b', 1), ('c', 1)])])


@scenario('histories', bounds='hierarchy of four elements on two levels, every sequence of L operations out of constrain (two transformations), fix, fix to a value, unfix, unconstrain from all or from one, on every object and every single element: state of every element at every level',
          quick=dict(L=2), thorough=dict(L=3), max_paths=(8000, 250000))
def histories(H, L):
    lab = Lab(H, SMALL)
    for s in range(L):
        constrain_op(H, lab, 's%d_' % s, cons=(TA, TB))
        lab.check('after step %d: ' % s)
    H.observe('free', int(lab.root._size_transformed()))


@scenario('long', bounds='hierarchy root[n[a, b]] of two elements, every sequence of L such operations',
          quick=dict(L=3), thorough=dict(L=4), max_paths=(50000, 400000))
def long(H, L):
    lab = Lab(H, ('root', [('n', [('a', 1)]), ('b', 1)]))
    ops = ('constrain', 'fix', 'unfix', 'unconstrain', 'unconstrain_one')
    for s in range(L):
        constrain_op(H, lab, 's%d_' % s, cons=(TA, TB) if s == L - 1 else (TA,), ops=ops)
    lab.check('after: ')


STATES = [(None, False), (TA, False), (TB, False), (TA, True), (None, True), (TB, True)]
THREE = {'two': ('root', [('n', [('a', 1), ('b', 1)]), ('c', 1)]), 'one': ('root', [('n', [('a', 2)]), ('c', 1)]), 'low': ('root', [('n', [('m', [('a', 1), ('b', 1)])]), ('c', 1)])}


@scenario('any_state', bounds='hierarchies of three elements on two or three levels, every assignment of none, one of two constraints, fixed or constrained and fixed to every element; then one operation out of the same on any object or element',
          quick=dict(shapes=['two'], states=5, ops=('constrain', 'fix', 'unfix', 'unconstrain', 'unconstrain_one')),
          thorough=dict(shapes=sorted(THREE), states=6, ops=('constrain', 'fix', 'fix_value', 'unfix', 'unconstrain', 'unconstrain_one')), max_paths=(20000, 250000))
def any_state(H, shapes, states, ops):
    lab = Lab(H, THREE[H.pick('shape', shapes)])
    for l in lab.leaves():
        for i in range(len(lab.ref[l])):
            con, fixed = STATES[H.choice('%s%d_is' % (l, i), states)]
            set_elem(lab, l, i, con and con(), fixed)
    lab.check('before: ')
    constrain_op(H, lab, cons=(TA, TB), ops=ops)
    lab.check('after: ')


@scenario('unfix_restores', bounds='any state reached by one operation; fixing any object or element and unfixing the same restores everything unless elements were fixed before',
          max_paths=(8000, 100000))
def unfix_restores(H):
    lab = Lab(H, SMALL)
    constrain_op(H, lab, 's_', cons=(TA, TB), ops=('constrain', 'unconstrain_one'))
    before = {k: sorted(int(i) for i in v) for k, v in lab.root.constraints.items()}
    nm = H.pick('what', list(lab.o))
    o = lab.o[nm]
    h = [o]
    if nm in lab.ref and H.bool('part'):
        i = H.choice('i', len(lab.ref[nm]))
        h = [o[i:i + 1]]
    v = flat(lab.root.param_array)
    for x in h:
        x.fix()
    H.check(bool(h[0].is_fixed), 'what was fixed is fixed')
    for x in h:
        x.unfix()
    H.check(not h[0].is_fixed, 'what was unfixed is not fixed')
    after = {k: sorted(int(i) for i in v) for k, v in lab.root.constraints.items()}
    H.check({k: v for k, v in after.items() if v} == before, 'unfixing restores the state before fixing')
    H.eq(flat(lab.root.param_array), v, 'fixing and unfixing keeps the values')
    lab.check('after: ')


NAMED = [('constrain_positive', 'unconstrain_positive', (), lambda: T.Logexp()),
         ('constrain_negative', 'unconstrain_negative', (), lambda: T.NegativeLogexp()),
         ('constrain_bounded', 'unconstrain_bounded', (-1., 4.), lambda: T.Logistic(-1., 4.)),
         ('constrain_bounded', 'unconstrain_bounded', (0., 1.), lambda: T.Logistic(0., 1.))]


@scenario('named', bounds='positive, negative and bounded constraints on any object of a hierarchy, replaced by another of them, then unconstrained by the matching or by another call; arbitrary values', max_paths=(6000, 50000))
def named(H):
    lab = Lab(H, ('root', [('a', 1), ('n', [('b', 1)])]))
    nm = H.pick('what', list(lab.o))
    o, el = lab.o[nm], lab.elems(nm)
    con, un, args, make = H.pick('first', NAMED)
    keep = make()
    getattr(o, con)(*args)
    for e, x in zip(el, flat(o.param_array)):
        e.v, e.con = x, keep
    H.check(all(make() is k for k in o.constraints.properties()), 'the constraint is the one instance of its kind')
    lab.check('constrained: ', values=False)
    second = H.pick('second', [None] + NAMED)
    if second is not None:
        k2 = second[3]()
        getattr(o, second[0])(*second[2])
        for e in el:
            e.con = k2
        lab.check('constrained again: ', values=False)
    third = H.pick('third', NAMED)
    getattr(o, third[1])(*third[2])
    for e in el:
        if e.con is third[3]():
            e.con = None
    lab.check('unconstrained: ', values=False)


@scenario('instances', bounds='Logistic with arbitrary bounds constructed, rejected (lower >= upper), copied and pickled in any order: one instance per type and bounds with the right bounds; every other built-in is one instance of its own type', max_paths=(6000, 20000))
def instances(H):
    made = []
    bounds = [(0., 1.), (0., 2.), (1., 2.)]
    for s in range(3):
        op = H.pick('op%d' % s, ['make', 'reject', 'copy', 'pickle', 'drop'])
        b = H.pick('b%d' % s, bounds)
        if op == 'make':
            made.append((b, T.Logistic(*b)))
        elif op == 'reject':
            H.raises(AssertionError, lambda: T.Logistic(b[1], b[0]), 'bounds the wrong way round are rejected')
        elif made:
            if op == 'copy':
                H.check(copy.deepcopy(made[-1][1]) is made[-1][1], 'a copy is the same instance')
            elif op == 'pickle':
                H.check(pickle.loads(pickle.dumps(made[-1][1])) is made[-1][1], 'an unpickled constraint is the same instance')
            else:
                made.pop()
    for b in bounds:
        t = T.Logistic(*b)
        H.check((t.lower, t.upper) == b and t.difference == b[1] - b[0], 'a Logistic has the bounds it was made with')
        for bb, tt in made:
            H.check((tt is t) == (bb == b), 'the same bounds give the same instance, others another')
        made.append((b, t))


@scenario('kinds', bounds='every pair of the other built-in transformations, in any order of construction: each is one instance of its own type, also after pickling', max_paths=(500, 500))
def kinds(H):
    kinds = [T.Logexp, T.NegativeLogexp, T.Exponent, T.NegativeExponent, T.Square]
    i, j = H.choice('i', 5), H.choice('j', 5)
    x, y = kinds[i](), kinds[j]()
    H.check(type(x) is kinds[i] and type(y) is kinds[j] and (x is y) == (i == j), 'every built-in has one instance of its own')
    H.check(pickle.loads(pickle.dumps(x)) is not y or i == j, 'pickling keeps kinds apart')


@scenario('any_bounds', bounds='Logistic with any two pairs of bounds (arbitrary reals): the same instance exactly when both bounds are equal', max_paths=(2000, 5000))
def any_bounds(H):
    lo, d = H.real('lo'), H.real('d', lo=0.001)
    lo2, d2 = H.real('lo2'), H.real('d2', lo=0.001)
    a = T.Logistic(lo, lo + d)
    b = T.Logistic(lo2, lo2 + d2)
    same = (lo == lo2) & (lo + d == lo2 + d2)
    H.check(same if a is b else ~same if not isinstance(same, (bool, np.bool_)) else not same, 'the same instance exactly when the bounds are equal')
    H.eq([a.lower, a.upper, b.lower, b.upper], [lo, lo + d, lo2, lo2 + d2], 'each has its own bounds')


@scenario('rejected', bounds='constraining by something that is no transformation raises and changes nothing', max_paths=(500, 500))
def rejected(H):
    lab = Lab(H, SMALL)
    constrain_op(H, lab, 's_', cons=(TA,), ops=('constrain', 'fix'))
    nm = H.pick('what', list(lab.o))
    bad = H.pick('bad', [3., 'positive', None])
    H.raises(ValueError, lambda: lab.o[nm].constrain(bad), 'only transformations can constrain')
    lab.check('after: ')


@scenario('default_constraint', bounds='parameter of two elements with a default constraint, any place', max_paths=(500, 500))
def default_constraint(H):
    from paramz import Param, Parameterized
    v = H.reals('v', 2)
    p = Param('p', np.array(v), default_constraint=Twice())
    H.check(flat(p.constraints[Twice()]) == [0, 1], 'the default constraint holds from the start')
    r = Parameterized('r')
    q = Param('q', np.array(H.reals('w', 1)))
    first = H.bool('first')
    r.link_parameters(*([p, q] if first else [q, p]))
    H.check(flat(r.constraints[Twice()]) == ([0, 1] if first else [1, 2]), 'and after linking')
    H.eq(flat(p), v, 'values')
