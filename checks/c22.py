"""A concatenation of parameters behaves as their flat concatenation."""
import numpy as np
from paramz.param import ParamConcatenation, Param
from symx.harness import scenario
from .lab import Lab, Node, Twice, Flip, flat, free_elems, tops, pos_of
from .modlab import set_elem

SPEC = ('root', [('a', 2), ('n', [('b', 1), ('c', (2, 1))]), ('d', (1, 2))])


ORDER = []


class Seen(Node):
    """remembers the values at its last update"""
    seen = None

    def parameters_changed(self):
        ORDER.append(self)
        self.seen = list(flat(self.param_array)) if self.size else []


def make(H, spec=SPEC, **kw):
    lab = Lab(H, spec, cls=Seen, **kw)
    lab.leafseen = {}
    for l in lab.leaves():
        def watch(me, which=None, l=l):
            lab.leafseen[l] = list(flat(lab.o[l].param_array))
        lab.o[l].add_observer(lab, watch)
    return lab


def updated(H, lab, leaves, tag):
    """the nodes above the leaves and the observers of the leaves saw the current values"""
    for l in leaves:
        H.check(l in lab.leafseen, tag + 'observers of the parameters are told')
        if l in lab.leafseen:
            H.eq(lab.leafseen[l], [e.v for e in lab.ref[l]], tag + 'observers of the parameters see the new values')
        p = lab.parent[l]
        while p is not None:
            H.eq(lab.o[p].seen, [e.v for e in lab.elems(p)], tag + 'the nodes above are updated with the new values')
            p = lab.parent.get(p)


def forget(lab):
    lab.leafseen.clear()
    for n in lab.kids:
        lab.o[n].seen = None


def expand(lab, names):
    out = []
    for n in names:
        for l in lab.leaves(n):
            if l not in out:
                out.append(l)
    return out


def path(lab, n):
    p = lab.o[n].name
    while lab.parent.get(n) not in (None, lab.rootname):
        n = lab.parent[n]
        p = lab.o[n].name + '.' + p
    return p


def select(H, lab, groups):
    """-> (concatenation, leaves in order)"""
    names = H.pick('selected', groups)
    if H.bool('by_name'):
        order = [n for n in lab.nodes()[1:] if n in names]
        c = lab.root['(' + '|'.join(path(lab, n).replace('.', '[.]') for n in order) + ')$']
    else:
        order = list(names)
        c = ParamConcatenation([lab.o[n] for n in order])
    H.label('select', order)
    return c, expand(lab, order)


GROUPS = [('a', 'b'), ('a', 'n'), ('n', 'b'), ('c', 'd'), ('d', 'a'), ('n', 'c', 'a'), ('d', 'c', 'b', 'a')]


def index(H, n, kinds):
    """-> (index, positions in increasing order)"""
    k = H.pick('index', kinds)
    if k == 'int':
        i = H.choice('i', 2 * n) - n
        return i, [i % n]
    if k == 'slice':
        a, b = H.choice('from', n + 1), H.choice('to', n + 1)
        return slice(a, b), list(range(a, b))
    if k == 'all':
        return slice(None), list(range(n))
    if k == 'ellipsis':
        return Ellipsis, list(range(n))
    if k == 'step':
        s = H.pick('step', [2, 3])
        a = H.choice('from', 2)
        return slice(a, None, s), list(range(n))[a::s]
    if k == 'back':
        return slice(-2, None), list(range(n))[-2:]
    if k == 'mask':
        m = [H.bool('m%d' % i) for i in range(n)]
        return np.array(m), [i for i in range(n) if m[i]]
    i = H.choice('first', n)
    j = i + 1 + H.choice('second', n - 1)
    H.assume(j < n)
    if k == 'list':
        return [i, j - n], [i, j]
    return np.array([i, j]), [i, j]


KINDS = ['int', 'slice', 'all', 'ellipsis', 'step', 'back', 'mask', 'list', 'array']


@scenario('read', bounds='seven selections of parameters and nodes (overlapping, any order, by name or objects) on two levels: values, every integer, slice, mask, or pair of indices; comparisons',
          quick=dict(groups=GROUPS[:6], kinds=[k for k in KINDS if k != 'mask']), thorough=dict(groups=GROUPS, kinds=KINDS), max_paths=(3000, 30000))
def read(H, groups, kinds):
    lab = make(H)
    c, leaves = select(H, lab, groups)
    el = [e for l in leaves for e in lab.ref[l]]
    H.eq(flat(c.values()), [e.v for e in el], 'the values are the concatenated values, each parameter once')
    i, pos = index(H, len(el), kinds)
    if pos:
        r = c[i]
        H.eq(flat(r.values() if isinstance(r, ParamConcatenation) else r), [el[p].v for p in pos], 'reading an index')
    x = H.real('x')
    want = [e.v for e in el]
    for f, w in ((lambda q: q == x, lambda q: q == x), (lambda q: q < x, lambda q: q < x), (lambda q: q >= x, lambda q: q >= x)):
        got = flat(f(c))
        H.check(len(got) == len(want), 'comparing every element')
        for g, v in zip(got, want):
            H.check((g & w(v)) | (~_b(g) & ~_b(w(v))), 'comparing elements')
    lab.check('reading changes nothing: ')


def _b(x):
    return np.bool_(x) if isinstance(x, bool) else x


@scenario('write', bounds='the same selections: one value or one per element written (also the values of another concatenation) at every index, also nothing; some elements constrained or fixed; everything is updated',
          quick=dict(groups=GROUPS[:6], kinds=[k for k in KINDS if k != 'mask'], marks=1), thorough=dict(groups=GROUPS, kinds=KINDS, marks=3), max_paths=(4000, 60000))
def write(H, groups, kinds, marks):
    lab = make(H)
    for l, i, con, fixed in [('a', 1, None, True), ('c', 0, Twice(), False), ('b', 0, Flip(), True)][:marks]:
        set_elem(lab, l, i, con, fixed)
    c, leaves = select(H, lab, groups)
    el = [e for l in leaves for e in lab.ref[l]]
    i, pos = index(H, len(el), kinds)
    forget(lab)
    how = H.choice('how', 3 if len(pos) == 5 and len(el) == 5 else 2)
    if how == 0:
        v = H.real('v')
        c[i] = v
        vs = [v] * len(pos)
    else:
        vs = H.reals('w', len(pos))
        if isinstance(i, int):
            c[i] = vs[0]
        else:
            c[i] = np.array(vs)
    for p, v in zip(pos, vs):
        el[p].v = v
    lab.check('after writing: ')
    H.eq(flat(c.values()), [e.v for e in el], 'the concatenation has the new values')
    touched = [l for l in leaves if any(any(el[p] is e for e in lab.ref[l]) for p in pos)]
    updated(H, lab, touched, 'writing: ')


@scenario('concat_value', bounds='the values of a concatenation written to another one or to itself, and in-place arithmetic on a concatenation held in a variable or selected by name')
def concat_value(H):
    lab = make(H)
    a, b = ('a', 'b'), ('c', 'd')
    how = H.pick('how', ['other', 'self', 'iadd', 'isub', 'imul', 'itruediv', 'ipow', 'ifloordiv', 'imod', 'iadd_name'])
    left = ('a', 'b') if how != 'other' else ('a', 'd')
    c = ParamConcatenation([lab.o[n] for n in left])
    el = [e for n in left for e in lab.ref[n]]
    forget(lab)
    x = H.real('x', nonzero=True)
    if how == 'other':
        sel = H.pick('source', [('c', 'd'), ('n', 'b', 'b'), ('d', 'a')])
        src = ParamConcatenation([lab.o[n] for n in sel])
        se = [e for l in expand(lab, sel) for e in lab.ref[l]]
        H.assume(len(se) == 4)
        c[:] = src
        for e, v in zip(el, [q.v for q in se]):
            e.v = v
    elif how == 'self':
        c[:] = c
    elif how == 'iadd_name':
        lab.root['(a|n[.]b)$'] += x
        for e in el:
            e.v = e.v + x
    else:
        held = c
        if how == 'iadd':
            held += x
        elif how == 'isub':
            held -= x
        elif how == 'imul':
            held *= x
        elif how == 'ipow':
            held **= 2
        elif how == 'ifloordiv':
            held //= 2.
        elif how == 'imod':
            held %= 2.
        else:
            held /= x
        H.check(held is c, 'the variable still holds the concatenation')
        for e in el:
            e.v = {'iadd': e.v + x, 'isub': e.v - x, 'imul': e.v * x, 'itruediv': e.v / x, 'ipow': e.v * e.v, 'ifloordiv': e.v // 2., 'imod': e.v % 2.}[how]
    lab.check('after: ')
    updated(H, lab, [n for n in left], 'after: ')


OPS = ['constrain', 'constrain_other', 'fix', 'fix_value', 'unfix', 'unconstrain', 'unconstrain_one']


@scenario('constrain', bounds='constrain, fix, unfix, unconstrain through every selection after one arbitrary constraint and fix of any element; the same as on each parameter, and everything is updated after constraining and fixing',
          quick=dict(groups=GROUPS[1:6], ops=OPS, before=3), thorough=dict(groups=GROUPS, ops=OPS, before=7), max_paths=(4000, 60000))
def constrain(H, groups, ops, before):
    lab = make(H)
    pre = [('a', 0), ('c', 1), ('b', 0), ('d', 0), ('a', 1), ('c', 0), ('d', 1)][:before]
    l, i = H.pick('constrained', pre)
    set_elem(lab, l, i, Twice())
    l, i = H.pick('fixed', pre)
    set_elem(lab, l, i, None, True)
    c, leaves = select(H, lab, groups)
    el = [e for l in leaves for e in lab.ref[l]]
    forget(lab)
    op = H.pick('op', ops)
    T = [Twice(), Flip()][op == 'constrain_other']
    if op in ('constrain', 'constrain_other'):
        c.constrain(T)
        for e in el:
            e.con, e.fixed = T, False
    elif op == 'fix':
        c.fix()
        for e in el:
            e.fixed = True
    elif op == 'fix_value':
        v = H.real('v')
        c.fix(v)
        for e in el:
            e.v, e.fixed = v, True
    elif op == 'unfix':
        c.unfix()
        for e in el:
            e.fixed = False
    elif op == 'unconstrain':
        c.unconstrain()
        for e in el:
            e.con, e.fixed = None, False
    else:
        c.unconstrain(T)
        for e in el:
            if e.con == T:
                e.con = None
    lab.check('after %s: ' % op)
    if op in ('constrain', 'constrain_other', 'fix', 'fix_value'):
        updated(H, lab, leaves, op + ': ')
    w = H.reals('o', len(free_elems(lab.elems())))
    lab.root.optimizer_array = np.array(w)
    from .modlab import put
    put(lab, w)
    lab.check('and optimizing works: ')


@scenario('elements', bounds='constraining or fixing any subset of the elements through a concatenation of two parameters')
def elements(H):
    lab = make(H, ('root', [('a', 2), ('n', [('c', (2, 1))])]))
    c, leaves = select(H, lab, [('a', 'c'), ('c', 'a')])
    el = [e for l in leaves for e in lab.ref[l]]
    m = [H.bool('m%d' % i) for i in range(4)]
    H.assume(any(m))
    forget(lab)
    op = H.pick('op', ['constrain', 'fix', 'fix_all_but'])
    sub = c[np.array(m)]
    if op == 'constrain':
        sub.constrain(Twice())
        for e, b in zip(el, m):
            if b:
                e.con = Twice()
    elif op == 'fix':
        sub.fix()
        for e, b in zip(el, m):
            e.fixed = b
    else:
        c.fix()
        sub.unfix()
        for e, b in zip(el, m):
            e.fixed = not b
    lab.check('after %s: ' % op)


DEEP = ('root', [('a', 1), ('m', [('n', [('b', 1), ('c', 2)]), ('d', 1)]), ('k', [('e', 1)])])
DEEP_GROUPS = [('a', 'c'), ('c', 'a'), ('a', 'c', 'd'), ('d', 'b', 'a'), ('e', 'c'), ('c', 'e', 'd'), ('a', 'b', 'c', 'd', 'e'), ('k', 'n'), ('a', 'm')]


@scenario('levels', bounds='selections from a hierarchy of four levels in which parameters of different depth meet: after writing any element (or all) and after constraining, everything above is updated with the new values, and every node is last updated after the nodes below it',
          quick=dict(groups=DEEP_GROUPS), thorough=dict(groups=DEEP_GROUPS), max_paths=(4000, 60000))
def levels(H, groups):
    lab = make(H, DEEP)
    c, leaves = select(H, lab, groups)
    el = [e for l in leaves for e in lab.ref[l]]
    forget(lab)
    del ORDER[:]
    op = H.pick('op', ['all', 'one', 'constrain', 'fix_value', 'iadd'])
    v = H.real('v')
    if op == 'all':
        c[:] = v
        for e in el:
            e.v = v
    elif op == 'one':
        i = H.choice('i', len(el))
        c[i] = v
        el[i].v = v
        leaves = [l for l in leaves if any(el[i] is e for e in lab.ref[l])]
    elif op == 'constrain':
        c.constrain(Twice())
        for e in el:
            e.con = Twice()
    elif op == 'fix_value':
        c.fix(v)
        for e in el:
            e.v, e.fixed = v, True
    else:
        c += v
        for e in el:
            e.v = e.v + v
    lab.check('after %s: ' % op)
    updated(H, lab, leaves, op + ': ')
    above = set()
    for l in leaves:
        p = lab.parent[l]
        while p is not None:
            above.add(p)
            p = lab.parent.get(p)
    last = {n: max(k for k, o in enumerate(ORDER) if o is lab.o[n]) for n in above if any(o is lab.o[n] for o in ORDER)}
    for n in last:
        q = lab.parent.get(n)
        if q in last:
            H.check(last[n] < last[q], 'every node is updated after the nodes below it')


TWINS = ('root', [('a', 1), ('m', [('b', 1), ('n', [('c', 1)])]), ('d', (1, 2))])


@scenario('twins', bounds='four parameters, three of which have the same name in different nodes, with arbitrary (also equal) values: every selection of two or more as objects or by names, reading, writing one element or all, constraining',
          max_paths=(4000, 60000))
def twins(H):
    lab = make(H, TWINS)
    for l in ('a', 'b', 'c'):
        lab.o[l].name = 'x'
    c, leaves = select(H, lab, [('a', 'b'), ('c', 'a'), ('b', 'd', 'c'), ('b', 'n'), ('a', 'm', 'd'), ('c', 'm', 'a')])
    el = [e for l in leaves for e in lab.ref[l]]
    H.eq(flat(c.values()), [e.v for e in el], 'the values are the concatenated values, each parameter once')
    op = H.pick('op', ['all', 'one', 'constrain', 'fix'])
    if op == 'all':
        w = H.reals('w', len(el))
        c[:] = np.array(w)
        for e, v in zip(el, w):
            e.v = v
    elif op == 'one':
        i = H.choice('i', len(el))
        v = H.real('v')
        c[i] = v
        el[i].v = v
    elif op == 'constrain':
        c.constrain(Twice())
        for e in el:
            e.con = Twice()
    else:
        c.fix()
        for e in el:
            e.fixed = True
    lab.check('after %s: ' % op)
    H.eq(flat(c.values()), [e.v for e in el], 'the concatenation has the new values')


@scenario('named', bounds='constraining positive, negative or bounded through every selection after another constraint on one element, and unconstraining the same or another kind through the same or another selection; values in the domain, some moved into it',
          quick=dict(groups=GROUPS[:4]), thorough=dict(groups=GROUPS), max_paths=(4000, 60000))
def named(H, groups):
    from paramz.transformations import Logexp, NegativeLogexp, Logistic
    kind = H.pick('kind', ['positive', 'negative', 'bounded'])
    T = {'positive': Logexp, 'negative': NegativeLogexp, 'bounded': lambda: Logistic(-3., 3.)}[kind]()
    lab = make(H, lo=-2. if kind != 'positive' else 0.25, hi=2. if kind != 'negative' else -0.25)
    l = H.pick('before', ['a', 'c', 'd'])
    set_elem(lab, l, 0, Twice(), H.bool('fixed'))
    c, leaves = select(H, lab, groups)
    el = [e for l in leaves for e in lab.ref[l]]
    forget(lab)
    if kind == 'bounded':
        c.constrain_bounded(-3., 3., warning=False)
    else:
        getattr(c, 'constrain_' + kind)(warning=False)
    for e in el:
        e.con, e.fixed = T, False
    lab.check('constrained: ')
    updated(H, lab, leaves, 'constrained: ')
    un = H.pick('un', ['positive', 'negative', 'bounded', 'other_bounds'])
    q, others = select2(H, lab, c, leaves)
    if un == 'bounded':
        q.unconstrain_bounded(-3., 3.)
    elif un == 'other_bounds':
        q.unconstrain_bounded(-3., 4.)
    else:
        getattr(q, 'unconstrain_' + un)()
    for l in others:
        for e in lab.ref[l]:
            if un == kind and e.con is T:
                e.con = None
    lab.check('unconstrained: ')


def select2(H, lab, c, leaves):
    """the same concatenation or another one"""
    if H.bool('same'):
        return c, leaves
    return ParamConcatenation([lab.o['c'], lab.o['a']]), ['c', 'a']


@scenario('again', bounds='a concatenation used, then a change elsewhere (values, a constraint, a fix, a name, a parameter replaced by another one of its name, moved within its node, or removed, or a new one linked), then the same concatenation (values and constraints) or the same selection made again, read and written: every value, constraint and update is the current one',
          quick=dict(groups=GROUPS[1:5]), thorough=dict(groups=GROUPS), max_paths=(6000, 60000))
def again(H, groups):
    lab = make(H)
    names = H.pick('selected', [tuple(lab.nodes()[1:])] + list(groups))
    order = [n for n in lab.nodes()[1:] if n in names]
    expr = '.*' if len(order) == len(lab.nodes()) - 1 else '(' + '|'.join(path(lab, n).replace('.', '[.]') for n in order) + ')$'
    leaves = expand(lab, order)
    c = lab.root[expr]
    v = H.real('v1')
    c[:] = v
    for l in leaves:
        for e in lab.ref[l]:
            e.v = v
    H.eq(flat(c.values()), [v] * len(c.values()), 'the values just written')
    how = H.pick('how', ['write', 'optimizer', 'constrain', 'fix', 'rename', 'replace', 'first', 'unlink', 'link'])
    kept = how in ('write', 'optimizer', 'constrain', 'fix', 'rename')
    l = H.pick('which', lab.leaves())
    o, el = lab.o[l], lab.ref[l]
    H.label(how, l)
    x = H.real('x')
    if how == 'write':
        o[:] = x
        for e in el:
            e.v = x
    elif how == 'optimizer':
        w = H.reals('w', len(lab.elems()))
        lab.root.optimizer_array = np.array(w)
        for e, q in zip(lab.elems(), w):
            e.v = q
    elif how == 'constrain':
        o.constrain(Twice())
        for e in el:
            e.con = Twice()
    elif how == 'fix':
        o.fix()
        for e in el:
            e.fixed = True
    elif how == 'rename':
        o.name = 'z' + l
    elif how == 'replace':
        up, i = lab.o[lab.parent[l]], o._parent_index_
        up.unlink_parameter(o)
        new = H.reals('new', len(el))
        lab.o[l] = Param(l, np.array(new).reshape(o.shape))
        up.link_parameter(lab.o[l], i)
        lab.o[l].add_observer(lab, lambda me, which=None: lab.leafseen.__setitem__(l, list(flat(lab.o[l].param_array))))
        for e, q in zip(el, new):
            e.v = q
    elif how == 'first':
        up = lab.parent[l]
        lab.o[up].link_parameter(o, 0)
        lab.kids[up].remove(l)
        lab.kids[up].insert(0, l)
    elif how == 'link':
        up, i = lab.parent[l], H.choice('at', 2)
        e = lab.leaf('e', 2)
        e.add_observer(lab, lambda me, which=None: lab.leafseen.__setitem__('e', list(flat(lab.o['e'].param_array))))
        lab.o[up].link_parameter(e, o._parent_index_ + i)
        lab.kids[up].insert(lab.kids[up].index(l) + i, 'e')
        lab.parent['e'] = up
    else:
        up = lab.parent[l]
        lab.o[up].unlink_parameter(o)
        lab.kids[up].remove(l)
        lab.parent[l] = None
    lab.check('in between: ')
    same = kept and H.bool('same')
    if not same:
        import re
        leaves = [k for k in lab.leaves() if any(re.match(expr, path(lab, n)) for n in [k] + [q for q in lab.kids if q != lab.rootname and k in lab.leaves(q)])]
        if not leaves:
            H.raises(AttributeError, lambda: lab.root[expr], 'nothing is found any more')
            return
        c = lab.root[expr]
        if not isinstance(c, ParamConcatenation):
            H.check(any(c is lab.o[n] for n in lab.nodes()), 'the only match itself')
            c = ParamConcatenation([c])
    el = [e for k in leaves for e in lab.ref[k]]
    H.eq(flat(c.values()), [e.v for e in el], 'the values are the concatenated values, each parameter once')
    forget(lab)
    new = H.reals('y', len(el))
    c[:] = np.array(new)
    for e, q in zip(el, new):
        e.v = q
    lab.check('written again: ')
    updated(H, lab, leaves, 'written again: ')
    c.fix()
    for e in el:
        e.fixed = True
    lab.check('fixed: ')
