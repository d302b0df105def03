"""Constraints and fixes stay with their own elements through restructuring."""
import numpy as np
from symx.harness import scenario
from paramz import Param, Parameterized
from paramz.core.index_operations import ParameterIndexOperations
from . import setmodel as sm
from .lab import Lab, TA, TB, Node, SPECS, mark, lab_ops, do, tops


# ---- unbounded sizes: leaves are objects with a symbolic size -----------------
class Leaf(Parameterized):
    pass


class Own:
    """users may have their own index operations besides constraints"""
    def __init__(self, name, **kw):
        super().__init__(name, **kw)
        self.add_index_operation('priors', ParameterIndexOperations())


class OwnLeaf(Own, Leaf):
    pass


class OwnNode(Own, Node):
    pass


PRIOR = 'a prior'


def mkleaf(H, name, ncon, smax=None, own=False):
    l = (OwnLeaf if own else Leaf)(name, initialize=False)
    n = H.int('size_' + name, 0) if smax is None else 1 + H.choice('size_' + name, smax)
    l.size = n
    idx = []
    for j in range(ncon):
        i = H.int('con_%s%d' % (name, j), 0)
        H.assume(i < n)
        idx.append(i)
    if idx:
        l.constraints.add(TA(), np.array(idx))
    if own:
        idx = [idx, []]
        for j in range(ncon):
            i = H.int('own_%s%d' % (name, j), 0)
            H.assume(i < n)
            idx[1].append(i)
        l.priors.add(PRIOR, np.array(idx[1]))
        return l, n, idx
    return l, n, [idx]


def mknode(name, own=False):
    return (OwnNode if own else Node)(name, initialize=False)


class Sym:
    """reference: tree of names, leaf sizes and constrained indices"""
    def __init__(self, H, smax=None, own=False):
        self.smax, self.own = smax, own
        self.H, self.o, self.n, self.idx, self.kids, self.parent = H, {}, {}, {}, {}, {}

    def add_leaf(self, name, ncon=1):
        self.o[name], self.n[name], self.idx[name] = mkleaf(self.H, name, ncon, self.smax, self.own)
        self.parent[name] = None

    def add_node(self, name):
        self.o[name] = mknode(name, self.own)
        self.kids[name] = []
        self.parent[name] = None

    def link(self, p, c, at=None):
        if self.parent[c] is not None:
            self.kids[self.parent[c]].remove(c)
        if at is None:
            self.o[p].link_parameter(self.o[c])
            self.kids[p].append(c)
        else:
            self.o[p].link_parameter(self.o[c], at)
            self.kids[p].insert(at, c)
        self.parent[c] = p

    def unlink(self, c):
        p = self.parent[c]
        self.o[p].unlink_parameter(self.o[c])
        self.kids[p].remove(c)
        self.parent[c] = None

    def leaves(self, r):
        if r not in self.kids:
            return [r]
        return [l for k in self.kids[r] for l in self.leaves(k)]

    def size(self, r):
        s = 0
        for l in self.leaves(r):
            s = s + self.n[l]
        return s

    def member(self, r, k, what=0):
        """is element k of r constrained in the reference"""
        off = 0
        res = False
        for l in self.leaves(r):
            for i in self.idx[l][what]:
                res = sm.bor(res, sm.eq(k, i + off))
            off = off + self.n[l]
        return res

    def check(self, tag):
        H = self.H
        k = H.int('k_' + tag.replace(' ', '_'), 0)
        for name, o in self.o.items():
            H.eq(o.size, self.size(name), tag + ': size of %s' % name)
            got = list(o.constraints[TA()])
            H.check(sm.iff(sm.isin(k, got), self.member(name, k)), tag + ': exactly the own elements are constrained')
            H.check(sm.distinct(got), tag + ': no element is listed twice')
            H.check(not [p for p in o.constraints.properties() if p is not TA()], tag + ': no constraint appears from nowhere')
            if self.own:
                got = list(o.priors[PRIOR])
                H.check(sm.iff(sm.isin(k, got), self.member(name, k, 1)), tag + ': exactly the own elements are marked by the operation of the user')
                H.check(sm.distinct(got), tag + ': no element is listed twice')
                H.check(not [p for p in o.priors.properties() if p is not PRIOR], tag + ': nothing appears from nowhere')


def structural_ops(m):
    """operations possible in the reference m"""
    ops = []
    for c, p in m.parent.items():
        if p is not None:
            ops.append(('unlink', c))
    for c, p in m.parent.items():
        for q in m.kids:
            if c == q or q in below(m, c):
                continue
            if p is not None and root_of(m, p) == root_of(m, q):
                # moving inside one hierarchy is only possible within the same parent
                if p == q:
                    for at in range(len(m.kids[q])):
                        ops.append(('link', q, c, at))
                continue
            ops.append(('link', q, c, None))
            for at in range(len(m.kids[q])):
                ops.append(('link', q, c, at))
    return ops


def below(m, c):
    return [c] + [d for k in m.kids.get(c, []) for d in below(m, k)]


def root_of(m, c):
    while m.parent[c] is not None:
        c = m.parent[c]
    return c


@scenario('unbounded_sizes', bounds='hierarchy root[A, N[B, C]], loose D and loose node E[F] (each parameter with one constrained element), linked in any order at any position; unbounded parameter sizes and constrained indices; before initialization',
          max_paths=(3000, 50000), timeout=120)
def unbounded_sizes(H):
    m = Sym(H)
    m.add_node('root')
    m.add_node('N')
    m.add_node('E')
    for l in 'ABCDF':
        m.add_leaf(l)
    m.link('N', 'B')
    m.link('N', 'C')
    m.link('root', 'A')
    m.link('root', 'N')
    m.link('E', 'F')
    for s in range(2):
        ops = [o for o in structural_ops(m) if o[0] == 'link' and m.parent[o[2]] is None and o[2] != 'root']
        if ops:
            op = H.pick('op%d' % s, ops)
            H.label(*op)
            m.link(*op[1:])
    m.check('end')
    H.observe('idx', list(m.o['root'].constraints[TA()]))


@scenario('sizes', bounds='hierarchy root[A, N[B, C]] and loose D (each with one constrained element), sizes 1..S, any constrained indices, any L operations of link at any position, move and unlink; before initialization',
          quick=dict(L=2, S=2), thorough=dict(L=3, S=2), max_paths=(6000, 200000))
def sizes(H, L, S):
    m = Sym(H, S)
    m.add_node('root')
    m.add_node('N')
    for l in 'ABCD':
        m.add_leaf(l, 1)
    m.link('N', 'B')
    m.link('N', 'C')
    m.link('root', 'A')
    m.link('root', 'N')
    for s in range(L):
        op = H.pick('op%d' % s, structural_ops(m))
        H.label(*op)
        if op[0] == 'unlink':
            m.unlink(op[1])
        else:
            m.link(*op[1:])
    m.check('end')
    H.observe('idx', list(m.o['root'].constraints[TA()]))


@scenario('own_operations', bounds='root[A, N[B, C]] and loose D, every object with an index operation of the user (like priors) besides constraints, unbounded sizes and indices, any L operations of link at any position, move and unlink',
          quick=dict(L=2), thorough=dict(L=3), max_paths=(6000, 200000))
def own_operations(H, L):
    m = Sym(H, own=True)
    m.add_node('root')
    m.add_node('N')
    for l in 'ABCD':
        m.add_leaf(l, 1)
    m.link('N', 'B')
    m.link('N', 'C')
    m.link('root', 'A')
    m.link('root', 'N')
    for s in range(L):
        op = H.pick('op%d' % s, structural_ops(m))
        H.label(*op)
        if op[0] == 'unlink':
            m.unlink(op[1])
        else:
            m.link(*op[1:])
    m.check('end')
    H.observe('idx', list(m.o['root'].priors[PRIOR]))


@scenario('link_under_deep_node', bounds='root[A, N[M[B], C]] with D linked at any position under any node: unbounded sizes, two constrained elements in D and C', max_paths=(6000, 50000))
def link_under_deep_node(H):
    m = Sym(H)
    for n in ('root', 'N', 'M'):
        m.add_node(n)
    for l, c in (('A', 1), ('B', 1), ('C', 2), ('D', 2)):
        m.add_leaf(l, c)
    m.link('M', 'B')
    m.link('root', 'A')
    m.link('root', 'N')
    m.link('N', 'M')
    m.link('N', 'C')
    q = H.pick('where', ['root', 'N', 'M'])
    m.link(q, 'D', H.pick('at', [None] + list(range(len(m.kids[q])))))
    m.check('end')


@scenario('initialized', bounds='three hierarchies of five elements plus one loose parameter of two elements (one constrained, one fixed); any element constrained, any element fixed, then any L operations of link at any position, move and unlink (quick: one operation if everything is read before it); arbitrary values',
          quick=dict(L=2, L_look=1), thorough=dict(L=2, L_look=2), max_paths=(40000, 120000))
def initialized(H, L, L_look):
    lab = Lab(H, SPECS[H.pick('shape', sorted(SPECS))])
    lab.look = H.bool('look')
    if lab.look:
        L = L_look
    mark(H, lab)
    d = lab.leaf('d', 2)
    lab.parent['d'] = None
    d[0:1].constrain(TB())
    d[1:2].fix()
    lab.ref['d'][0].con = TB()
    lab.ref['d'][1].fixed = True
    lab.check('before: ')
    for s in range(L):
        op = H.pick('op%d' % s, lab_ops(lab))
        H.label(*op)
        do(lab, op)
    for t in tops(lab):
        lab.check('after: ', names=lab.nodes(t))
        H.observe(t, list(lab.o[t].param_array.flat))


@scenario('unlink_and_back', bounds='unlink any parameter or node and link it back at any place: constraints, fixes and values survive; any element constrained, any element fixed',
          quick=dict(shapes=['nested']), thorough=dict(shapes=['nested', 'deep', 'flat']), max_paths=(3000, 60000))
def unlink_and_back(H, shapes):
    lab = Lab(H, SPECS[H.pick('shape', shapes)])
    mark(H, lab)
    c = H.pick('which', [n for n in lab.o if lab.parent.get(n)])
    do(lab, ('unlink', c))
    lab.o[c].fix() if H.bool('fix_while_loose') else None
    if lab.o[c].is_fixed:
        for e in lab.elems(c):
            e.fixed = True
    q = H.pick('to', [k for k in lab.kids if k not in lab.nodes(c)])
    do(lab, ('link', q, c, H.pick('at', [None] + list(range(len(lab.kids[q]))))))
    lab.check('after: ')
    v = H.reals('new', len(lab.elems()))
    lab.root[:] = np.array(v)
    for e, x in zip(lab.elems(), v):
        e.v = x
    lab.check('after setting values: ')
