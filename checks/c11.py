"""A change anywhere updates every object above it, children first."""
import numpy as np
from symx.harness import scenario
from paramz import Parameterized
from .lab import Lab, SPECS, Opaque, Twice, flat, write, constrain_op, free_elems, pos_of, do

NOTIFYING = ['whole', 'array', 'optimizer', 'item', 'rows', 'mask', 'list', 'iadd', 'imul', 'slice_iadd', 'slice_fill', 'attr', 'attr_array', 'regexp', 'getitem', 'slice', 'nodemask', 'nodelist', 'nodeitem']
NODEWAYS = ('whole', 'array', 'slice', 'nodemask', 'nodelist', 'nodeitem', 'optimizer')


class Snap(Opaque):
    """initializing changes the values"""
    def initialize(self, f):
        return f * 0. + 7.


class Watch:
    pass


class World:
    def __init__(self, H, spec):
        self.log = []
        world = self

        class N(Parameterized):
            def parameters_changed(self):
                world.log.append((self.name, flat(self.param_array)))
        self.lab = Lab(H, spec, cls=N)
        self.w = Watch()
        for l in self.lab.leaves():
            self.lab.o[l].add_observer(self.w, self._cb(l))
        del self.log[:]

    def _cb(self, l):
        def f(me, which=None):
            self.log.append((l, flat(self.lab.o[l].values)))
        return f

    def path(self, nm):
        out = []
        while nm is not None:
            out.append(nm)
            nm = self.lab.parent.get(nm)
        return out


def check_ran(H, w, must, tag):
    """every object of must ran, the last time with the new values, after those below it"""
    lab, last = w.lab, {}
    for i, (n, vals) in enumerate(w.log):
        last[n] = i
    for n in must:
        H.check(n in last, tag + 'every object that has to be updated is updated')
        if n in last:
            H.eq(w.log[last[n]][1], [e.v for e in lab.elems(n)], tag + 'the update sees the new values')
    for n in last:
        p = lab.parent.get(n)
        if p in last:
            H.check(last[n] < last[p], tag + 'an object is updated after the objects below it')


def same(a, b):
    return all(x is y for x, y in zip(a, b))


@scenario('propagate', bounds='hierarchies of five elements, any object fixed or none, one write of arbitrary values in 18 ways on any object: updates of everything above and below',
          quick=dict(shapes=['nested', 'deep', 'chain', 'solo', 'one']), thorough=dict(shapes=sorted(SPECS)), max_paths=(24000, 200000))
def propagate(H, shapes):
    w = World(H, SPECS[H.pick('shape', shapes)])
    lab = w.lab
    f = H.pick('fixed', ['none'] + [n for n in lab.nodes()])
    if f != 'none':
        lab.o[f].fix()
        for e in lab.elems(f):
            e.fixed = True
    lab.o[lab.rootname].optimizer_array
    del w.log[:]
    old = {n: [e.v for e in lab.elems(n)] for n in lab.nodes()}
    nm = write(H, lab, ways=NOTIFYING)
    way = lab.last[1]
    changed = {n: not same(old[n], [e.v for e in lab.elems(n)]) for n in lab.nodes()}
    must = []
    if changed[nm]:
        must = w.path(nm)
        if nm in lab.kids:
            must += [d for d in lab.nodes(nm)[1:] if changed[d] or way in ('whole', 'array')]
    check_ran(H, w, sorted(set(must)), 'write: ')
    lab.check('write: ')
    H.observe('ran', [n for n, _ in w.log])


@scenario('optimizer_twice', bounds='two vectors written one after the other to the optimizer array of any object, any object fixed or none',
          quick=dict(shapes=['deep', 'chain']), thorough=dict(shapes=sorted(SPECS)), max_paths=(3000, 20000))
def optimizer_twice(H, shapes):
    w = World(H, SPECS[H.pick('shape', shapes)])
    lab = w.lab
    f = H.pick('fixed', ['none'] + [n for n in lab.nodes() if n != lab.rootname])
    if f != 'none':
        lab.o[f].fix()
        for e in lab.elems(f):
            e.fixed = True
    nm = H.pick('node', [n for n in lab.nodes() if free_elems(lab.elems(n))])
    for t in 'xy':
        x = H.reals(t, len(free_elems(lab.elems(nm))))
        del w.log[:]
        lab.o[nm].optimizer_array = np.array(x)
        for e, v in zip(free_elems(lab.elems(nm)), x):
            e.v = v
        must = w.path(nm) + [d for d in lab.nodes(nm)[1:] if free_elems(lab.elems(d))]
        check_ran(H, w, sorted(set(must)), 'vector %s: ' % t)


@scenario('constrained_values', bounds='constraining (with a change of the values by the initialization) and fixing to arbitrary values, any object or element: everything above it is updated and sees the new values',
          quick=dict(shapes=['nested', 'deep', 'chain', 'solo', 'one']), thorough=dict(shapes=sorted(SPECS)), max_paths=(3000, 20000))
def constrained_values(H, shapes):
    w = World(H, SPECS[H.pick('shape', shapes)])
    lab = w.lab
    nm = H.pick('where', lab.nodes())
    o, el = lab.o[nm], lab.elems(nm)
    if nm in lab.ref and H.bool('element'):
        i = H.choice('i', len(el))
        o, el = o[tuple(slice(q, q + 1) for q in pos_of(o, i))], [el[i]]
    del w.log[:]
    if H.bool('constrain'):
        o.constrain(Snap())
        for e in el:
            e.v, e.con, e.fixed = 7., Snap(), False
    else:
        v = H.real('v')
        o.fix(v)
        for e in el:
            e.v, e.fixed = v, True
    check_ran(H, w, [n for n in w.path(nm) if n in lab.kids], '')
    lab.check()


@scenario('linked_off', bounds='a parameter or node (with a parameter in it) whose updates are off, linked anywhere into a hierarchy whose updates are on, or the other way around; updates switched on through any object: every object is updated once, and again by any later change in the linked part',
          quick=dict(shapes=['deep', 'chain']), thorough=dict(shapes=sorted(SPECS)), max_paths=(3000, 30000))
def linked_off(H, shapes):
    w = World(H, SPECS[H.pick('shape', shapes)])
    lab = w.lab
    k = lab.leaf('k', 1)
    k.add_observer(w.w, w._cb('k'))
    top = 'k'
    if H.bool('node'):
        top = 'q'
        lab.o['q'] = lab.cls('q')
        lab.o['q'].link_parameter(k)
        lab.kids['q'], lab.parent['k'] = ['k'], 'q'
    which = H.pick('off', ['part', 'whole', 'both'])
    if which != 'whole':
        lab.o[H.pick('part', lab.nodes(top))].update_model(False)
    if which != 'part':
        lab.root.update_model(False)
    dest = H.pick('dest', [n for n in lab.kids if n not in (top, 'q')])
    at = H.pick('at', [None, 0])
    do(lab, ('link', dest, top, at))
    v = H.real('v')
    k[:] = v
    lab.ref['k'][0].v = v
    del w.log[:]
    names = lab.nodes()
    lab.o[H.pick('on', names)].update_model(True)
    ran = [n for n, _ in w.log]
    H.check(sorted(ran) == sorted(names), 'switching updates on updates every object exactly once')
    check_ran(H, w, names, 'on: ')
    H.check(all(lab.o[n].update_model() is True for n in names), 'updates are on everywhere')
    del w.log[:]
    v = H.real('v2')
    k[:] = v
    lab.ref['k'][0].v = v
    check_ran(H, w, w.path('k'), 'on again: ')
    lab.check('on again: ')


@scenario('empty_off', bounds='hierarchies of up to three elements with a node without parameters in one of three places (or emptied), updates switched off through any object, then a parameter is linked into the empty node and written in 6 or all 18 ways: no node is updated; switched on through any object: every object once; and again by any later change',
          quick=dict(few=True), thorough=dict(few=False), max_paths=(3000, 60000))
def empty_off(H, few):
    spec = H.pick('shape', [('root', [('a', 1), ('e', [])]), ('root', [('n', [('e', []), ('a', 2)])]), ('root', [('n', [('e', [])]), ('a', 1)]), ('root', [('a', 1), ('e', [('x', 1)])])])
    w = World(H, spec)
    lab = w.lab
    if lab.kids['e']:
        do(lab, ('unlink', 'x'))
    k = lab.leaf('k', 2)
    k.add_observer(w.w, w._cb('k'))
    lab.o[H.pick('off', [lab.rootname, 'e'] if few else lab.nodes())].update_model(False)
    del w.log[:]
    do(lab, ('link', 'e', 'k', H.pick('at', [None, 0])))
    write(H, lab, 'w', ways=['whole', 'optimizer', 'item', 'slice_iadd', 'attr', 'nodemask'] if few else NOTIFYING, names=['k', 'e'])
    # the new parameter may still tell its own observers
    H.check(all(n == 'k' for n, _ in w.log), 'with updates off nothing is updated')
    names = lab.nodes()
    H.check(all(lab.o[n].update_model() is False for n in names if n != 'k'), 'updates are off everywhere')
    del w.log[:]
    lab.o[H.pick('on', ['e', 'k'] if few else names)].update_model(True)
    H.check(sorted(n for n, _ in w.log) == sorted(names), 'switching updates on updates every object exactly once')
    check_ran(H, w, names, 'on: ')
    H.check(all(lab.o[n].update_model() is True for n in names), 'updates are on everywhere')
    del w.log[:]
    v = H.real('v2')
    k[:] = v
    for e in lab.ref['k']:
        e.v = v
    check_ran(H, w, w.path('k'), 'on again: ')
    lab.check('on again: ')


@scenario('updates_off', bounds='updates switched off through any object (quick: root or a parameter; set or toggled), L changes (a write in 6 or all 18 ways, any constraining, randomizing, triggering) anywhere: nothing runs; switched on through any object: every object once, children first, with the final values',
          quick=dict(shapes=['deep', 'one'], L=1, few=True), thorough=dict(shapes=sorted(SPECS), L=1, few=False), max_paths=(9000, 150000))
def updates_off(H, shapes, L, few):
    w = World(H, SPECS[H.pick('shape', shapes)])
    lab = w.lab
    names = lab.nodes()
    toggle = H.bool('toggle')
    a = lab.o[H.pick('off', [lab.rootname, lab.leaves()[0]] if few else names)]
    a.update_toggle() if toggle else a.update_model(False)
    H.check(not w.log, 'switching updates off updates nothing')
    for s in range(L):
        k = H.pick('kind%d' % s, ['write', 'constrain', 'randomize', 'trigger'])
        if k == 'write':
            write(H, lab, 's%d_' % s, ways=['whole', 'optimizer', 'item', 'slice_iadd', 'attr', 'nodemask'] if few else NOTIFYING)
        elif k == 'constrain':
            constrain_op(H, lab, 's%d_' % s, cons=(Twice,))
        elif k == 'randomize':
            n = H.pick('s%d_r' % s, names)
            x = H.reals('s%d_x' % s, len(free_elems(lab.elems(n))))
            lab.o[n].randomize(lambda size: np.array(x))
            for e, v in zip(free_elems(lab.elems(n)), x):
                e.v = v
        else:
            lab.o[H.pick('s%d_t' % s, names)].trigger_update()
    H.check(not w.log, 'with updates off nothing is updated')
    for n in names:
        H.check(lab.o[n].update_model() is False, 'updates are off everywhere')
    b = lab.o[H.pick('on', ['n' if 'n' in lab.o else lab.rootname, lab.leaves()[-1]] if few else names)]
    b.update_toggle() if toggle else b.update_model(True)
    ran = [n for n, _ in w.log]
    H.check(sorted(ran) == sorted(names), 'switching updates on updates every object exactly once')
    check_ran(H, w, names, 'on: ')
    for n in names:
        H.check(lab.o[n].update_model() is True, 'updates are on everywhere')
    del w.log[:]
    l = lab.leaves()[0]
    lab.o[l][:] = 5.
    for e in lab.ref[l]:
        e.v = 5.
    check_ran(H, w, w.path(l), 'on again: ')


@scenario('held_part', bounds='a part of a parameter (alone or in a hierarchy) taken by slice, index or mask while updates are on or off, updates then set through the part, the parameter or the root up to twice, then the part is written in four ways: everything above runs exactly if updates are on, and the part reports the setting',
          quick=dict(shapes=['deep', 'one', 'alone']), thorough=dict(shapes=sorted(SPECS) + ['alone']), max_paths=(4000, 40000))
def held_part(H, shapes):
    sh = H.pick('shape', shapes)
    w = World(H, ('a', 2) if sh == 'alone' else SPECS[sh])
    lab = w.lab
    p, el = lab.o['a'], lab.ref['a']
    root = lab.root
    on = H.bool('on')
    if not on:
        root.update_model(False)
    i, j = pos_of(p, 0), pos_of(p, 1)
    s = p[H.pick('part', [tuple(slice(q, q + 1) for q in j), tuple(slice(q, None) for q in i)])]
    part = el[1:] if len(flat(s)) == 1 else el
    for k in range(1 + H.bool('twice')):
        on = H.bool('on%d' % k)
        {'part': s, 'parameter': p, 'root': root}[H.pick('through%d' % k, ['part', 'parameter', 'root'])].update_model(on)
        for o in [s] + [lab.o[n] for n in lab.nodes()]:
            H.check(o.update_model() is on, 'every object and part reports the setting')
    del w.log[:]
    v = H.real('v')
    how = H.pick('how', ['set', 'item', 'iadd', 'fix'])
    if how == 'set':
        s[:] = v
    elif how == 'item':
        s[-1] = v
    elif how == 'iadd':
        s += v
    else:
        s.fix(v)
    for e in (part if how != 'item' else part[-1:]):
        e.v = e.v + v if how == 'iadd' else v
        e.fixed = how == 'fix'
    if on:
        check_ran(H, w, w.path('a'), '')
    else:
        H.check(not w.log, 'with updates off nothing runs')
    H.check(root.update_model() is on, 'writing does not switch updates')
    lab.check()


@scenario('inplace', bounds='two in-place operations (+=, -=, *=, /=, **= 2) one after the other on a variable holding a parameter or a part of it (alone or in a hierarchy), on an attribute, an item, or a selection by name: the variable still holds it, and each of them updates everything above',
          quick=dict(shapes=['deep', 'one', 'alone']), thorough=dict(shapes=sorted(SPECS) + ['alone']), max_paths=(4000, 40000))
def inplace(H, shapes):
    sh = H.pick('shape', shapes)
    w = World(H, ('a', 2) if sh == 'alone' else SPECS[sh])
    lab = w.lab
    p, el = lab.o['a'], lab.ref['a']
    par = p._parent_
    how = H.pick('how', ['held', 'part'] + ([] if par is None else ['attribute', 'item', 'name']))
    j = tuple(slice(q, q + 1) for q in pos_of(p, 1))
    held = p if how == 'held' else p[j]
    same = held
    part = el[1:] if how == 'part' else el
    for k in range(2):
        del w.log[:]
        op = H.pick('op%d' % k, ['iadd', 'isub', 'imul', 'itruediv', 'ipow'])
        v = H.real('v%d' % k, nonzero=True) if op != 'ipow' else 2

        def change(x):
            if op == 'iadd':
                x += v
            elif op == 'isub':
                x -= v
            elif op == 'imul':
                x *= v
            elif op == 'itruediv':
                x /= v
            else:
                x **= v
            return x
        if how in ('held', 'part'):
            held = change(held)
            H.check(held is same, 'the variable still holds the parameter')
        elif how == 'attribute':
            par.a = change(par.a)
        elif how == 'item':
            p[:] = change(p[:])
        else:
            par['.*a$'] = change(par['.*a$'])
        for e in part:
            e.v = {'iadd': lambda: e.v + v, 'isub': lambda: e.v - v, 'imul': lambda: e.v * v, 'itruediv': lambda: e.v / v, 'ipow': lambda: e.v * e.v}[op]()
        check_ran(H, w, w.path('a'), 'change %d: ' % k)
        lab.check('change %d: ' % k)
