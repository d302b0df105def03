"""Randomizing changes free elements only and obeys the constraints."""
import numpy as np
from symx.harness import scenario, Known
from .lab import Lab, Node, Opaque, Twice, Flip, flat, free_elems, forward
from .modlab import set_elem

SPEC = ('root', [('a', 2), ('n', [('b', 1), ('c', (2, 1))])])
ONE = ('root', [('n', [('a', 1)])])
SMALL = ('root', [('a', 2), ('n', [('b', 1)])])


class Above(Opaque):
    """f(x) = x^2 + 1: everything above one"""
    def f(self, x):
        return x * x + 1.

    def finv(self, f):
        return f - 1.


class Seen(Node):
    """remembers the values at every update"""
    seen = ()

    def parameters_changed(self):
        self.seen = list(self.seen) + [list(flat(self.param_array))]


def make(H, spec, options):
    lab = Lab(H, spec, cls=Seen)
    for l in lab.leaves():
        for i in range(len(lab.ref[l])):
            s = H.pick('%s%d_is' % (l, i), options)
            con = {'twice': Twice, 'flip': Flip, 'above': Above, 'fixed_twice': Twice}.get(s)
            if con or s == 'fix':
                set_elem(lab, l, i, con() if con else None, s.startswith('fix'))
    return lab


def target(H, lab):
    nm = H.pick('where', lab.nodes())
    return lab.o[nm], lab.elems(nm)


def go(H, lab, fn, el):
    """randomize, then compare with the reference (already changed by the caller's after())"""
    m = lab.root
    on = H.bool('updates_on')
    if not on:
        m.update_model(False)
    for n in lab.kids:
        lab.o[n].seen = ()
    fn()
    for n in lab.nodes():
        H.check(lab.o[n].update_model() is on, 'the update setting is the same as before')
    return on


def seen(H, lab, on):
    for n in lab.kids:
        if not on:
            H.check(len(lab.o[n].seen) == 0, 'no update while updates are off')
            continue
        H.check(len(lab.o[n].seen) == 1, 'everything is updated once')
        for s in lab.o[n].seen:
            H.eq(s, [e.v for e in lab.elems(n)], 'updates happen once everything is set')


@scenario('given', bounds='models of one, three (five) elements on two levels, each free, constrained (one of two maps), fixed, or both; the model, node or parameter randomized with a given generator with or without arguments, updates on or off',
          quick=dict(spec=0, options=['free', 'twice', 'fix', 'fixed_twice']), thorough=dict(spec=1, options=['free', 'twice', 'flip', 'fix', 'fixed_twice']), max_paths=(3000, 60000))
def given(H, spec, options):
    lab = make(H, ONE if H.bool('one') else [SMALL, SPEC][spec], options)
    o, el = target(H, lab)
    free = free_elems(el)
    w = H.reals('w', len(free))
    calls = []

    def gen(*a, **k):
        calls.append((a, {q: v for q, v in k.items() if q != 'size'}, k.get('size')))
        return np.array(w) if w else np.zeros(0)
    args = H.pick('args', [0, 1, 2])
    x = H.real('arg')
    on = go(H, lab, {0: lambda: o.randomize(gen), 1: lambda: o.randomize(gen, x, 2.), 2: lambda: o.randomize(rand_gen=gen, loc=x)}[args], el)
    H.check(len(calls) == 1, 'one draw')
    H.check(calls[0][2] == len(free) or calls[0][2] == (len(free),), 'as many numbers as free elements')
    if args == 1:
        H.eq(list(calls[0][0]), [x, 2.], 'arguments reach the generator')
    elif args == 2:
        H.check(list(calls[0][1]) == ['loc'], 'keywords reach the generator')
        H.eq(calls[0][1].get('loc', 0.), x, 'keywords reach the generator')
    for e, v in zip(free, w):
        e.v = forward(e, v)
    lab.check('after randomizing: ')
    seen(H, lab, on)


@scenario('default', bounds='the same with the default generator, every outcome of the draw: only free elements of the target change, constrained elements stay in the range of their map', quick=dict(spec=0, options=['free', 'above', 'fix']), thorough=dict(spec=1, options=['free', 'above', 'fix']), max_paths=(3000, 60000))
def default(H, spec, options):
    lab = make(H, ONE if H.bool('one') else [SMALL, SPEC][spec], options)
    o, el = target(H, lab)
    on = go(H, lab, lambda: o.randomize(), el)
    now = flat(lab.root.param_array)
    free = free_elems(el)
    for e, v in zip(lab.elems(), now):
        if any(e is f for f in free):
            if type(e.con) is Above:
                H.check(v >= 1., 'constrained elements are in range')
            e.v = v
    lab.check('after randomizing: ')
    seen(H, lab, on)
    H.observe('values', now)


@scenario('twice', bounds='no or any element fixed or constrained, two randomizations of any two targets with a constraint or fix changed in between', quick=dict(spec=0), thorough=dict(spec=1), max_paths=(20000, 120000))
def twice(H, spec):
    from .lab import constrain_op
    lab = make(H, [SMALL, SPEC][spec], ['free'])
    at = H.choice('at_first', len(lab.elems()) + 1)
    if at < len(lab.elems()):
        l, i = lab.locate(at)
        set_elem(lab, l, i, *H.pick('is_first', [(None, True), (Twice(), False)]))
    for k in range(2):
        nm = H.pick('where%d' % k, lab.nodes())
        o, free = lab.o[nm], free_elems(lab.elems(nm))
        w = H.reals('w%d_' % k, len(free))
        for n in lab.kids:
            lab.o[n].seen = ()
        sizes = []

        def gen(size):
            sizes.append(int(np.prod(size)))
            return np.array(w) if w else np.zeros(0)
        o.randomize(gen)
        H.check(sizes == [len(free)], 'as many numbers as free elements')
        for e, v in zip(free, w):
            e.v = forward(e, v)
        lab.check('randomizing %d: ' % k)
        seen(H, lab, True)
        if k == 0:
            constrain_op(H, lab)


@scenario('slice', bounds='any contiguous slice of a parameter of three elements, alone or below a node; all elements free, or one constrained or fixed; updates on or off')
def slice_(H):
    lab = Lab(H, ('a', 3) if H.bool('alone') else ('root', [('z', 1), ('n', [('a', 3)])]), cls=Seen)
    s = H.pick('is', ['free', 'twice', 'fix'])
    k = H.choice('k', 3)
    if s != 'free':
        set_elem(lab, 'a', k, Twice() if s == 'twice' else None, s == 'fix')
    i = H.choice('from', 3)
    j = H.choice('to', 4)
    H.assume(i < j)
    free = [e for e in lab.ref['a'][i:j] if not e.fixed]
    kn = Known('K2', s != 'free' and j - i < 3)
    w = H.reals('w', len(free))
    spare = H.reals('spare', 3)

    def gen(size):
        return np.array((w + spare)[:int(size)])
    on = H.bool('on')
    if not on:
        lab.root.update_model(False)
    for n in lab.kids:
        lab.o[n].seen = ()
    try:
        lab.o['a'][i:j].randomize(gen)
        ok = True
    except (IndexError, ValueError):
        ok = False
    H.check(ok, 'randomizing a slice works', kn)
    if not ok:
        return
    H.check(all(lab.o[n].update_model() is on for n in lab.nodes()), 'the update setting is the same as before')
    for e, v in zip(free, w):
        e.v = forward(e, v)
    H.eq(flat(lab.root.param_array), [e.v for e in lab.elems()], 'exactly the free elements of the slice change', kn)
    if s == 'free' or j - i == 3:
        seen(H, lab, on)
