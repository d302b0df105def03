"""A second lab around a copied or unpickled object."""
import numpy as np
from paramz import Model
from .lab import Lab, SPECS, Elem, LOG, Node, Mod, TA, TB, Twice, Flip, flat, free_elems, inverse, pos_of, tops


class GNode(Node):
    def parameters_changed(self):
        LOG.append(self)
        for p in self.parameters:
            p.gradient = 2. * p.param_array


class GMod(Mod):
    def parameters_changed(self):
        LOG.append(self)
        self.gradient[:] = 3. * self.param_array

    def objective_function(self):
        return self.param_array.sum()


def clone(lab, top, obj):
    c = object.__new__(Lab)
    c.__dict__.update(lab.__dict__)
    c.o, c.ref, c.kids, c.parent = {}, {}, {}, {}
    c.root, c.rootname = obj, top

    def walk(nm, o):
        c.o[nm] = o
        if nm in lab.ref:
            c.ref[nm] = []
            for e in lab.ref[nm]:
                n = Elem(e.v)
                n.con, n.fixed = e.con, e.fixed
                c.ref[nm].append(n)
            return
        c.kids[nm] = list(lab.kids[nm])
        for k, p in zip(lab.kids[nm], o.parameters):
            c.parent[k] = nm
            walk(k, p)
    walk(top, obj)
    c.parent[top] = None
    return c


def same_structure(H, lab, c, tag, names=None):
    for nm in c.o:
        a, b = lab.o[nm], c.o[nm]
        H.check(a is not b, tag + 'a new object')
        H.check(type(a) is type(b), tag + 'the same type')
        H.check(a.name == b.name, tag + 'the same name')
        H.check(b.shape == a.shape if nm in c.ref else len(a.parameters) == len(b.parameters), tag + 'the same shape or number of parameters')
        par = c.parent.get(nm)
        H.check((b._parent_ is None and not b.has_parent()) if par is None else b._parent_ is c.o[par], tag + 'the parents are within the new hierarchy')
        if par is not None:
            H.check(getattr(c.o[par], nm) is b, tag + 'available as attribute')
            H.check(c.o[par].parameters[b._parent_index_] is b, tag + 'listed at its position')
    for t in c.kids:
        H.check(lab.o[t].parameter_names() == c.o[t].parameter_names(), tag + 'the same parameter names')


def check_gradient(H, c, tag):
    top = c.o[c.rootname]
    if not isinstance(top, (GMod, GNode)):
        return
    k = 3. if isinstance(top, GMod) else 2.
    H.eq(flat(top.gradient), [k * e.v for e in c.elems(c.rootname)], tag + 'gradients of the freshly updated state')
    for l in c.leaves(c.rootname):
        H.eq(flat(c.o[l].gradient), [k * e.v for e in c.ref[l]], tag + 'gradients of the freshly updated state')


def check_vector(H, c, tag):
    for nm in c.o:
        el = c.elems(nm)
        if el:
            H.eq(flat(c.o[nm].optimizer_array), [inverse(e) for e in free_elems(el)], tag + 'optimizer vector')


def decorate_some(H, lab, few=False):
    """a constraint on one element, a fix on another (or the same) one"""
    el = lab.elems()
    cons = H.choice('constrained', len(el) + 1) - 1 if not few else 1
    fix = H.choice('fixed', len(el) + 1) - 1 if not few else len(el) - 1
    for g, what in ((cons, 'c'), (fix, 'f')):
        if g < 0:
            continue
        l, i = lab.locate(g)
        p = lab.o[l]
        sel = p[tuple(slice(q, q + 1) for q in pos_of(p, i))]
        if what == 'c':
            sel.constrain(Twice())
            lab.ref[l][i].con = Twice()
        else:
            sel.fix()
            lab.ref[l][i].fixed = True


def make(H, shapes, few=False):
    lab = Lab(H, SPECS[H.pick('shape', shapes)], cls=GNode, root_cls=GMod)
    decorate_some(H, lab, few)
    lab.root.trigger_update()
    return lab


def state(lab):
    return [(nm, o.name, id(o._parent_), o._parent_index_, [id(q) for q in o.parameters], [(id(w), id(getattr(c, '__func__', c)), p) for p, w, c in o.observers], o.update_model()) for nm, o in lab.o.items()]
