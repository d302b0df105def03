"""Small hierarchies with a plain reference model next to them.

The reference knows, per element of every parameter: value, constraint, fixed or not.
Hierarchies are nested pairs: ('root', [('a', 2), ('n', [('b', (1, 2))])])."""
import numpy as np
import paramz
from paramz import Param, Parameterized, Model
from paramz.core.nameable import adjust_name_for_printing
from paramz.transformations import Transformation, __fixed__
from . import setmodel as sm

LOG = []


class Opaque(Transformation):
    """domain: all reals; f(x) = x"""
    def f(self, x):
        return x

    def finv(self, f):
        return f

    def gradfactor(self, f, df):
        return df

    def initialize(self, f):
        return f

    def __str__(self):
        return self.__class__.__name__


class TA(Opaque):
    pass


class TB(Opaque):
    pass


class Twice(Opaque):
    """f(x) = 2x + 3"""
    def f(self, x):
        return 2. * x + 3.

    def finv(self, f):
        return (f - 3.) / 2.

    def gradfactor(self, f, df):
        return 2. * df


class Flip(Opaque):
    """f(x) = 5 - x"""
    def f(self, x):
        return 5. - x

    def finv(self, f):
        return 5. - f

    def gradfactor(self, f, df):
        return -df


class Node(Parameterized):
    def parameters_changed(self):
        LOG.append(self)


class Mod(Model):
    """objective: weighted sum of the parameters unless given; gradient: those weights"""
    weights = None
    objective = None

    def parameters_changed(self):
        LOG.append(self)

    def objective_function(self):
        if self.objective is not None:
            return self.objective(self)
        return np.dot(self.param_array, self.weights) if self.weights is not None else 0.


class Elem:
    __slots__ = ('v', 'con', 'fixed')

    def __init__(self, v):
        self.v, self.con, self.fixed = v, None, False

    def __repr__(self):
        return '%s/%s/%s' % (self.v, self.con, self.fixed)


class Lab:
    look = None     # whether everything is read before each change

    def __init__(self, H, spec, cls=Node, initialize=True, root_cls=None, lo=None, hi=None):
        del LOG[:]
        self.H = H
        self.cls, self.root_cls, self.init = cls, root_cls or cls, initialize
        self.o = {}             # name -> object
        self.ref = {}           # leaf name -> [Elem]
        self.kids = {}          # node name -> [names]
        self.parent = {}
        self.lo, self.hi = lo, hi
        self.root = self._make(spec, True)
        self.rootname = spec[0]

    def _make(self, spec, top=False):
        name, kids = spec
        if isinstance(kids, list):
            c = self.root_cls if top else self.cls
            n = c(name)
            self.o[name] = n
            self.kids[name] = []
            for k in kids:
                ch = self._make(k)
                n.link_parameter(ch)
                self.kids[name].append(k[0])
                self.parent[k[0]] = name
            return n
        return self.leaf(name, kids)

    def leaf(self, name, shape):
        shape = shape if isinstance(shape, tuple) else (shape,)
        size = 1
        for s in shape:
            size *= s
        vals = [self.H.real('%s%d' % (name, i), lo=self.lo, hi=self.hi) for i in range(size)]
        p = Param(name, np.array(vals, dtype=float).reshape(shape))
        self.o[name] = p
        self.ref[name] = [Elem(v) for v in vals]
        return p

    # -- structure of the reference
    def leaves(self, name=None):
        name = name or self.rootname
        if name in self.ref:
            return [name]
        return [l for k in self.kids[name] for l in self.leaves(k)]

    def elems(self, name=None):
        return [e for l in self.leaves(name) for e in self.ref[l]]

    def nodes(self, name=None):
        name = name or self.rootname
        return [name] + [d for k in self.kids.get(name, []) for d in self.nodes(k)]

    def locate(self, g, name=None):
        """leaf name and flat index of global element g"""
        for l in self.leaves(name):
            n = len(self.ref[l])
            if g < n:
                return l, g
            g -= n
        raise IndexError(g)

    # -- comparison
    def check(self, tag='', names=None, values=True, cons=True):
        H = self.H
        for nm in (names or self.nodes()):
            o = self.o[nm]
            el = self.elems(nm)
            H.eq(o.size, len(el), tag + 'size of every object')
            if values:
                if el:
                    H.eq(list(flat(o.param_array)), [e.v for e in el], tag + 'values of every element at every level')
            if not cons:
                continue
            want = {}
            for i, e in enumerate(el):
                if e.con is not None:
                    want.setdefault(e.con, []).append(i)
                if e.fixed:
                    want.setdefault(__fixed__, []).append(i)
            got = {k: sorted(int(i) for i in v) for k, v in o.constraints.items()}
            H.check(set(got) == set(want), tag + 'exactly the expected constraints exist at every level')
            for k in got:
                if k in want:
                    H.check(got[k] == want[k], tag + 'every constraint and fix covers exactly its elements at every level')
            H.eq(int(o._size_transformed()), sum(1 for e in el if not e.fixed), tag + 'number of free elements')
            if el:
                H.check(bool(o.is_fixed) == all(e.fixed for e in el), tag + 'fixed means that all elements are fixed')


def flat(a):
    return np.asarray(a).reshape(-1).tolist()


def free_elems(el):
    return [e for e in el if not e.fixed]


SPECS = {
    'flat': ('root', [('a', 2), ('b', (1, 2)), ('c', 1)]),
    'nested': ('root', [('a', 2), ('n', [('b', 1), ('c', (2, 1))])]),
    'deep': ('root', [('n', [('m', [('a', 2)]), ('b', 1)]), ('c', 2)]),
    'chain': ('root', [('n', [('a', 2), ('m', [('b', 1)])]), ('c', 1)]),
    'solo': ('root', [('n', [('a', (2, 1))])]),
    'one': ('root', [('a', 2)]),
}


def mark(H, L):
    """one element constrained by TA, one fixed, chosen by symbolic indices"""
    n = len(L.elems())
    i = H.choice('constrained', n)
    j = H.choice('fixed', n)
    for g, t in ((i, 'con'), (j, 'fix')):
        leaf, k = L.locate(g)
        p = L.o[leaf]
        sel = tuple(slice(int(q), int(q) + 1) for q in np.unravel_index(k, p.shape))
        if t == 'con':
            p[sel].constrain(TA())
            L.ref[leaf][k].con = TA()
            L.ref[leaf][k].fixed = False
        else:
            p[sel].fix()
            L.ref[leaf][k].fixed = True


def look(lab):
    """read everything that can be read of every object; what is found may not influence what is found later"""
    for t in tops(lab):
        root = lab.o[t]
        for nm in lab.nodes(t):
            o = lab.o[nm]
            for r in (lambda: o.size, lambda: flat(o.param_array), lambda: o.gradient, lambda: flat(o.optimizer_array), lambda: o._size_transformed(),
                      lambda: [(k, list(v)) for k, v in o.constraints.items()], lambda: o.is_fixed, lambda: o._has_fixes(), lambda: o.hierarchy_name(),
                      lambda: o.parameter_names(), lambda: o.parameter_names_flat(), lambda: o.flattened_parameters, lambda: o.num_params,
                      lambda: o.update_model(), lambda: o._highest_parent_, lambda: o.has_parent(), lambda: o.unfixed_param_array,
                      lambda: root._raveled_index_for(o), lambda: t in lab.kids and root._raveled_index_for_transformed(o), lambda: o._description_str):
                r()
            if nm in lab.kids:
                o.grep_param_names('.*')
                for k in lab.leaves(nm):
                    if lab.parent.get(k):
                        o['.*' + adjust_name_for_printing(lab.o[k].name)]


def maybe_look(lab):
    if lab.look is None:
        lab.look = lab.H.bool('look')
    if lab.look:
        look(lab)


def lab_ops(L):
    ops = []
    par = L.parent
    allnames = list(L.o)
    for c in allnames:
        if par.get(c) is not None:
            ops.append(('unlink', c))
    for c in allnames:
        p = par.get(c)
        if c == L.rootname:
            continue
        for q in L.kids:
            if q in L.nodes(c) if c in L.kids else False:
                continue
            if p is not None:
                if p == q:
                    ops += [('link', q, c, at) for at in range(len(L.kids[q])) if L.kids[q][at] != c]
                continue
            if c == q:
                continue
            ops += [('link', q, c, at) for at in [None] + list(range(-1, len(L.kids[q])))]
    return ops


def do(L, op):
    maybe_look(L)
    if op[0] == 'unlink':
        c = op[1]
        L.o[L.parent[c]].unlink_parameter(L.o[c])
        L.kids[L.parent[c]].remove(c)
        L.parent[c] = None
    else:
        _, q, c, at = op
        if at is None:
            L.o[q].link_parameter(L.o[c])
        else:
            L.o[q].link_parameter(L.o[c], at)
        if L.parent.get(c) is not None:
            L.kids[L.parent[c]].remove(c)
        L.kids[q].insert(len(L.kids[q]) if at is None else at, c)
        L.parent[c] = q


def tops(L):
    return [n for n in L.o if L.parent.get(n) is None]


def pos_of(p, i):
    return tuple(int(q) for q in np.unravel_index(i, p.shape))


def write(H, lab, t='', ways=None, names=None):
    """one write of symbolic values somewhere; updates the reference, returns the name of the object"""
    names = [n for n in (names or [n for r in tops(lab) for n in lab.nodes(r)]) if lab.elems(n)]
    nm = H.pick(t + 'where', names)
    o, el = lab.o[nm], lab.elems(nm)
    n = len(el)
    leaf = nm in lab.ref
    all_ = ['whole', 'array', 'param_array', 'optimizer']
    if leaf:
        all_ += ['item', 'rows', 'mask', 'list', 'iadd', 'imul', 'slice_iadd', 'values', 'slice_fill']
        if lab.parent.get(nm):
            all_ += ['attr', 'attr_array', 'regexp', 'getitem']
    else:
        all_ += ['slice', 'nodemask', 'nodelist', 'nodeitem']
    way = H.pick(t + 'way', [w for w in all_ if ways is None or w in ways])
    H.label('write', nm, way)
    lab.last = (nm, way)
    maybe_look(lab)
    v = H.real(t + 'v')
    if way == 'whole':
        o[:] = v
        for e in el:
            e.v = v
    elif way == 'array':
        w = H.reals(t + 'w', n)
        o[:] = np.array(w).reshape(o.shape) if leaf else np.array(w)
        for e, x in zip(el, w):
            e.v = x
    elif way == 'param_array':
        i = H.choice(t + 'i', n)
        o.param_array.flat[i] = v
        el[i].v = v
    elif way == 'optimizer':
        free = free_elems(el)
        w = H.reals(t + 'w', len(free))
        o.optimizer_array = np.array(w)
        for e, x in zip(free, w):
            e.v = forward(e, x)
    elif way == 'item':
        i = H.choice(t + 'i', n)
        o[pos_of(o, i)] = v
        el[i].v = v
    elif way == 'rows':
        r = o.shape[0]
        a, b = H.choice(t + 'a', r + 1), H.choice(t + 'b', r + 1)
        o[a:b] = v
        k = n // r
        for i in range(n):
            if a <= i // k < b:
                el[i].v = v
    elif way == 'mask':
        m = [H.bool(t + 'm%d' % i) for i in range(n)]
        o[np.array(m).reshape(o.shape)] = v
        for e, b in zip(el, m):
            if b:
                e.v = v
    elif way == 'list':
        r = o.shape[0]
        i = H.choice(t + 'i', 2 * r) - r
        o[[i]] = v
        for k in range(n):
            if k // (n // r) == i % r:
                el[k].v = v
    elif way == 'iadd':
        o += v
        for e in el:
            e.v = e.v + v
    elif way == 'imul':
        o *= v
        for e in el:
            e.v = e.v * v
    elif way == 'slice_iadd':
        o[0:1] += v
        for e in el[:n // o.shape[0]]:
            e.v = e.v + v
    elif way == 'values':
        i = H.choice(t + 'i', n)
        o.values[pos_of(o, i)] = v
        el[i].v = v
    elif way == 'slice_fill':
        s = o[0:1]
        s[...] = v
        for e in el[:n // o.shape[0]]:
            e.v = v
    elif way == 'attr':
        setattr(lab.o[lab.parent[nm]], nm, v)
        for e in el:
            e.v = v
    elif way == 'attr_array':
        w = H.reals(t + 'w', n)
        setattr(lab.o[lab.parent[nm]], nm, np.array(w).reshape(o.shape))
        for e, x in zip(el, w):
            e.v = x
    elif way == 'regexp':
        lab.o[lab.parent[nm]]['.*' + nm + '$'] = v
        for e in el:
            e.v = v
    elif way == 'getitem':
        i = H.choice(t + 'i', n)
        lab.o[lab.parent[nm]]['.*' + nm + '$'][pos_of(o, i)] = v
        el[i].v = v
    elif way == 'nodeitem':
        i = H.choice(t + 'i', 2 * n) - n
        o[i] = v
        el[i].v = v
    elif way == 'slice':
        a, b = H.choice(t + 'a', n + 1), H.choice(t + 'b', n + 1)
        o[a:b] = v
        for e in el[a:b]:
            e.v = v
    elif way == 'nodemask':
        m = [H.bool(t + 'm%d' % i) for i in range(n)]
        o[np.array(m)] = v
        for e, b in zip(el, m):
            if b:
                e.v = v
    elif way == 'nodelist':
        i = H.choice(t + 'i', 2 * n) - n
        o[np.array([i])] = v
        el[i].v = v
    return nm


def forward(e, x):
    return x if e.con is None else e.con.f(x)


def inverse(e):
    return e.v if e.con is None else e.con.finv(e.v)


def constrain_op(H, lab, t='', cons=(Twice, Flip), names=None, ops=('constrain', 'fix', 'fix_value', 'unfix', 'unconstrain', 'unconstrain_one')):
    """constrain, fix... an object or one element of a parameter; updates the reference"""
    names = [n for n in (names or [n for r in tops(lab) for n in lab.nodes(r)]) if lab.elems(n)]
    nm = H.pick(t + 'cwhere', names)
    o, el = lab.o[nm], lab.elems(nm)
    if nm in lab.ref and len(el) > 1:
        i = H.choice(t + 'celem', len(el) + 1) - 1
        if i >= 0:
            o = o[tuple(slice(q, q + 1) for q in pos_of(o, i))]
            el = [el[i]]
    op = H.pick(t + 'cop', ops)
    H.label(op, nm)
    maybe_look(lab)
    if op == 'constrain':
        c = H.pick(t + 'con', cons)()
        o.constrain(c)
        for e in el:
            e.con, e.fixed = c, False
    elif op == 'fix':
        o.fix()
        for e in el:
            e.fixed = True
    elif op == 'fix_value':
        v = H.real(t + 'cval')
        o.constrain_fixed(v)
        for e in el:
            e.v, e.fixed = v, True
    elif op == 'unfix':
        o.unfix()
        for e in el:
            e.fixed = False
    elif op == 'unconstrain':
        o.unconstrain()
        for e in el:
            e.con, e.fixed = None, False
    elif op == 'unconstrain_one':
        c = H.pick(t + 'con', cons)()
        o.unconstrain(c)
        for e in el:
            if e.con is c:
                e.con = None
    return nm
