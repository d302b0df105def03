"""The hierarchy always stays a tree with consistent bookkeeping."""
import numpy as np
from symx.harness import scenario
from paramz import Param, Parameterized
from paramz.core import HierarchyError
from .lab import Node, Mod, TA, Elem, flat
from paramz.transformations import __fixed__

SPEC = ('root', [('a', 2), ('n', [('b', 1), ('c', (1, 2))])])
LOOSE = [('s', [('d', 1)]), ('e', 2), ('k', [])]
SMALL = ('root', [('a', 2), ('n', [('b', 1)])])
WIDE = ('root', [('a', 1), ('b', 2), ('n', [('c', 1)])])


class World:
    def __init__(self, H, specs, mode):
        self.H, self.mode = H, mode
        self.o, self.kids, self.parent, self.val = {}, {}, {}, {}
        for s in specs:
            self.parent[s[0]] = None
            self.make(s)

    def make(self, spec):
        name, kids = spec
        if isinstance(kids, list):
            o = Node(name) if self.mode != 'later' else Node(name, initialize=False)
            self.o[name], self.kids[name] = o, []
            for k in kids:
                o.link_parameter(self.make(k))
                self.kids[name].append(k[0])
                self.parent[k[0]] = name
            return o
        shape = kids if isinstance(kids, tuple) else (kids,)
        n = int(np.prod(shape))
        self.val[name] = [Elem(v) for v in self.H.reals(name, n)]
        self.o[name] = Param(name, np.array([e.v for e in self.val[name]]).reshape(shape))
        return self.o[name]

    def leaves(self, c):
        return [c] if c in self.val else [l for k in self.kids[c] for l in self.leaves(k)]

    def elems(self, c):
        return [e for l in self.leaves(c) for e in self.val[l]]

    def below(self, c):
        return [c] + [d for k in self.kids.get(c, []) for d in self.below(k)]

    def top(self, c):
        while self.parent[c] is not None:
            c = self.parent[c]
        return c

    def tops(self):
        return [c for c in self.o if self.parent[c] is None]

    # -- what an operation must do
    def refuses(self, op):
        if op[0] == 'link':
            _, q, c, at = op
            if c not in self.o:
                return True
            if self.parent[c] == q:
                return at is None
            return q in self.below(c) or self.top(q) == self.top(c)
        _, q, c = op
        return c not in self.o or self.parent[c] != q

    def do(self, op, foreign=None):
        q, c = op[1:3]
        o = self.o[c] if c in self.o else foreign
        if op[0] == 'link':
            at = op[3]
            if at is None:
                self.o[q].link_parameter(o)
            else:
                self.o[q].link_parameter(o, at)
        else:
            self.o[q].unlink_parameter(o)

    def follow(self, op):
        q, c = op[1:3]
        if self.parent[c] is not None:
            self.kids[self.parent[c]].remove(c)
        self.parent[c] = None
        if op[0] == 'link':
            k = self.kids[q]
            k.insert(len(k) if op[3] is None else op[3], c)
            self.parent[c] = q

    # -- what must hold
    def check(self, tag):
        H = self.H
        for c, o in self.o.items():
            p = self.parent[c]
            H.check(o._parent_ is (None if p is None else self.o[p]), tag + 'every object has the one parent it belongs to')
            H.check(o.has_parent() == (p is not None), tag + 'every object knows whether it has a parent')
            H.check(o._highest_parent_ is self.o[self.top(c)], tag + 'the root of every object is the root of its hierarchy')
            if p is not None:
                i = o._parent_index_
                H.check(sum(1 for x in self.o[p].parameters if x is o) == 1, tag + 'every object is listed exactly once by its parent')
                H.eq(i, self.kids[p].index(c), tag + 'every object reports its position below its parent')
                H.check(0 <= i < len(self.o[p].parameters) and self.o[p].parameters[i] is o, tag + 'every object is listed at the position it reports')
            else:
                H.check(not any(x is o for q in self.kids for x in self.o[q].parameters), tag + 'an object without a parent is listed nowhere')
            if c in self.kids:
                got = list(o.parameters)
                H.check(len(got) == len(self.kids[c]) and all(x is self.o[k] for x, k in zip(got, self.kids[c])), tag + 'every object lists exactly the objects linked to it, in order')
                H.check(all(o.parameters.index(x) == i for i, x in enumerate(got)), tag + 'every object is found at its position')
                H.eq(o.num_params, len(self.kids[c]), tag + 'number of linked objects')
            H.eq(o.size, len(self.elems(c)), tag + 'every size is the sum of the sizes of the parameters')
            seen = []
            o.traverse(seen.append)
            want = [self.o[x] for x in self.below(c)]
            H.check(len(seen) == len(want) and all(x is y for x, y in zip(seen, want)), tag + 'visiting meets every object once, parents first')
            seen = []
            o.traverse_parents(seen.append)
            mine = set() if p is None else set(self.below(self.top(c))) - set(self.below(c))
            H.check(len(seen) == len(mine) and all(any(x is self.o[m] for x in seen) for m in mine), tag + 'visiting the objects above meets each of them and all others below them once')
            flatp = [x for x in o.flattened_parameters] if c in self.kids else []
            want = [self.o[x] for x in self.leaves(c)] if c in self.kids else []
            H.check(len(flatp) == len(want) and all(x is y for x, y in zip(flatp, want)), tag + 'the flattened parameters are listed once, in order')
        if self.mode == 'later':
            return
        for t in self.tops():
            for c in self.below(t):
                el = self.elems(c)
                if el:
                    H.eq(flat(self.o[c].param_array), [e.v for e in el], tag + 'the values belong to the parameters')
                for con, pick in ((__fixed__, lambda e: e.fixed), (TA(), lambda e: e.con is not None)):
                    got = sorted(int(i) for i in self.o[c].constraints[con]) if con in self.o[c].constraints.properties() else []
                    H.check(got == [i for i, e in enumerate(el) if pick(e)], tag + 'constraints and fixes stay with their elements')


FOREIGN = {'text': 'hello', 'none': None, 'number': 3., 'array': np.zeros(2)}


def all_ops(w, nodes=None, kids=None):
    ops = []
    for q in nodes or w.kids:
        for c in (kids or list(w.o)):
            ops.append(('unlink', q, c))
            ops.append(('link', q, c))
    return ops


def step(H, w, t, ops, far=2):
    op = H.pick(t + 'op', ops)
    if op[0] == 'link':
        k = len(w.kids[op[1]])
        at = H.int(t + 'at', lo=-k - 2 if far > 1 else -1, hi=k + far + 1)
        op = op + (None if at == k + far + 1 else int(at),)
    H.label(*[str(x) for x in op])
    f = FOREIGN.get(op[2])
    if w.refuses(op):
        try:
            w.do(op, f)
            H.check(False, 'an operation that is not possible raises an error')
        except HierarchyError:
            pass
        except (AttributeError, TypeError, ValueError):
            H.check(op[2] in FOREIGN, 'an impossible operation raises a hierarchy error')
        w.check('after the rejected operation: ')
    else:
        w.do(op, f)
        w.follow(op)
        w.check('after the operation: ')


def world(H, specs, mode, mark=False):
    w = World(H, specs, mode)
    if mark:
        for c, t in (('a', 'con'), ('b', 'fix')):
            if t == 'con':
                w.o[c][0:1].constrain(TA())
                w.val[c][0].con = True
            else:
                w.o[c].fix()
                for e in w.val[c]:
                    e.fixed = True
    w.check('before: ')
    return w


@scenario('one', bounds='three hierarchies and two loose objects, any one operation of linking anything anywhere at any integer position or unlinking anything from anything, with constraints on elements',
          quick=dict(modes=['built', 'later']), thorough=dict(modes=['built', 'later']), max_paths=(4000, 60000))
def one(H, modes):
    w = world(H, [SPEC] + LOOSE, H.pick('mode', modes), True)
    step(H, w, '', all_ops(w))


@scenario('position', bounds='linking anything anywhere at a position that is not an integer',
          quick=dict(), thorough=dict(), max_paths=(2000, 20000))
def position(H):
    w = world(H, [SPEC] + LOOSE, H.pick('mode', ['built', 'later']), True)
    q, c = H.pick('node', list(w.kids)), H.pick('what', list(w.o))
    at = H.pick('at', ['first', 1.5, (1,)])
    H.label('link', q, c, str(at))
    try:
        w.do(('link', q, c, at))
        H.check(False, 'an operation that is not possible raises an error')
    except (HierarchyError, TypeError, ValueError):
        pass
    w.check('after the rejected operation: ')


@scenario('foreign', bounds='linking or unlinking something that is not a parameter',
          quick=dict(), thorough=dict(), max_paths=(2000, 20000))
def foreign(H):
    w = world(H, [SPEC] + LOOSE, H.pick('mode', ['built', 'later']), True)
    step(H, w, '', all_ops(w, kids=list(FOREIGN)))


TINY = ('root', [('n', [('a', 1)])])
WORLDS = {'tiny': [TINY, ('e', 1)], 'small': [SMALL, ('e', 1), ('s', [])], 'small_e': [SMALL, ('e', 1)], 'tiny_s': [TINY, ('s', [('d', 1)])]}


@scenario('two', bounds='any L operations, valid or not, on hierarchies of four objects and one or two loose ones',
          quick=dict(L=2, specs='tiny', modes=['built'], far=1), thorough=dict(L=2, specs='small', modes=['built', 'later'], far=2), max_paths=(6000, 200000))
def two(H, L, specs, modes, far):
    w = world(H, WORLDS[specs], H.pick('mode', modes))
    for i in range(L):
        step(H, w, 's%d' % i, all_ops(w), far=far)


@scenario('sequence', bounds='any L possible operations in a row on small hierarchies, looked at and written to only afterwards',
          quick=dict(L=3, worlds=['tiny'], modes=['built', 'later']), thorough=dict(L=4, worlds=['tiny'], modes=['built', 'later']), max_paths=(6000, 200000))
def sequence(H, L, worlds, modes):
    run_sequence(H, L, worlds, modes)


@scenario('sequence_wide', bounds='any L possible operations in a row on hierarchies of four or five objects and two loose ones, looked at and written to only afterwards',
          quick=dict(L=2, worlds=['small_e', 'tiny_s'], modes=['later']), thorough=dict(L=3, worlds=['small', 'tiny_s'], modes=['built', 'later']), max_paths=(6000, 200000))
def sequence_wide(H, L, worlds, modes):
    run_sequence(H, L, worlds, modes)


def run_sequence(H, L, worlds, modes):
    w = World(H, WORLDS[H.pick('world', worlds)], H.pick('mode', modes))
    for i in range(L):
        ops = [o for o in all_ops(w) if o[0] == 'unlink' and not w.refuses(o)]
        for o in all_ops(w):
            if o[0] == 'link':
                ops += [p for at in [None] + list(range(-1 if L > 3 else 0, len(w.kids[o[1]]))) for p in [o + (at,)] if not w.refuses(p)]
        op = H.pick('op%d' % i, ops)
        H.label(*[str(x) for x in op])
        w.do(op)
        w.follow(op)
    w.check('after the operations: ')
    if w.mode == 'later':
        for t in w.tops():
            if t in w.kids:
                w.o[t].initialize_parameter()
        w.mode = 'built'
        w.check('after initializing: ')
    for c in w.val:
        v = H.reals('new_' + c, len(w.val[c]))
        w.o[c][:] = np.array(v).reshape(w.o[c].shape)
        for e, x in zip(w.val[c], v):
            e.v = x
    w.check('after writing: ')
