"""Names: unique among siblings, findable as attributes, lists of names in element order."""
import re
import numpy as np
from symx.harness import scenario
from paramz import Param, Parameterized
from paramz.core.nameable import adjust_name_for_printing
from paramz.param import ParamConcatenation
from .lab import Lab, SPECS, tops, flat, lab_ops, do


class Holder(Parameterized):
    category = 'some text'

    def __init__(self, name):
        super(Holder, self).__init__(name)
        self.extra = 17

    def parameters_changed(self):
        pass

    def copy_state(self):
        return 'method'


BASE = None


def reserved():
    """attribute names that belong to the node itself"""
    global BASE
    if BASE is None:
        h = Holder('h')
        h.link_parameter(Param('zzz', 1.))
        h.optimizer_array
        BASE = set(dir(h)) - {'zzz'}
    return BASE


OWN = {'size': lambda m: m.size == sum(p.size for p in m.parameters), 'copy_state': lambda m: m.copy_state() == 'method', 'category': lambda m: m.category == 'some text',
       'extra': lambda m: m.extra == 17, 'name': lambda m: m.name == 'm', 'gradient': lambda m: len(m.gradient) == m.size, 'parameters': lambda m: isinstance(m.parameters, list)}


def names_ok(H, m, tag, given=None):
    names = [p.name for p in m.parameters]
    H.check(len(set(names)) == len(names), tag + 'names of siblings are different')
    shown = [adjust_name_for_printing(n) for n in names]
    H.check(len(set(shown)) == len(shown), tag + 'printable names of siblings are different')
    H.check(list(m.parameter_names()) == names if not any(isinstance(p, Parameterized) for p in m.parameters) else True, tag + 'parameter_names lists the names in order')
    H.check(m.parameter_names(recursive=False) == names, tag + 'parameter_names lists the names in order')
    H.check(m.parameter_names(recursive=False, adjust_for_printing=True) == shown, tag + 'parameter_names lists the printable names in order')
    for p, s in zip(m.parameters, shown):
        if s not in reserved():
            H.check(getattr(m, s, None) is p, tag + 'available as attribute')
    ch = {k: v for k, v in m.__dict__.items() if isinstance(v, (Param, Parameterized)) and k not in ('_parent_', '_highest')}
    H.check(sorted(ch) == sorted(s for s in shown if s not in reserved()), tag + 'under no other attribute')
    for k, f in OWN.items():
        H.check(f(m), tag + 'other attributes of the node are untouched')
    H.check(m._added_names_ == set(ch), tag + 'exactly the linked names are known as added')
    if any(isinstance(p, Parameterized) for p in m.parameters):
        return
    H.check(len(m.flattened_parameters) == len(m.parameters) and all(a is b for a, b in zip(m.flattened_parameters, m.parameters)), tag + 'the parameters themselves in order')
    if m.parameters:
        top = adjust_name_for_printing(m.name) + '.'
        H.check([_plain(x) for x in m.parameter_names_flat()] == [(top + n, q) for n, p in zip(shown, m.parameters) for q in ([()] if p.size == 1 else [(i,) for i in range(p.size)])], tag + 'one flat name per element in order')
    for s in shown:
        want = [p for p, n in zip(m.parameters, shown) if n.startswith(s)]
        got = m.grep_param_names(s)
        H.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), tag + 'a regular expression finds exactly the matching parameters')
        if len(want) == 1:
            H.check(m[s] is want[0], tag + 'the only match is returned')


ALPHA = ['a', 'a_1', 'a_2', 'a b', 'a_b', 'x-y', 'x_m_y', 'size', 'extra', 'copy_state']


def ops_of(m, alpha, free):
    r = [('link', nm, pos) for nm in alpha for pos in (None, 0)]
    r += [('rename', i, nm) for i in range(len(m.parameters)) for nm in alpha]
    r += [('unlink', i) for i in range(len(m.parameters))]
    r += [('relink', i, pos) for i in range(len(free)) for pos in (None, 0)]
    r += [('replace', i) for i in range(len(m.parameters))]
    r += [('move', len(m.parameters) - 1, 0)] if len(m.parameters) > 1 else []
    return r


def do_op(m, op, free):
    if op[0] == 'link':
        if op[2] is None:
            m.link_parameter(Param(op[1], 1.))
        else:
            m.link_parameter(Param(op[1], 1.), op[2])
    elif op[0] == 'rename':
        m.parameters[op[1]].name = op[2]
    elif op[0] == 'unlink':
        p = m.parameters[op[1]]
        m.unlink_parameter(p)
        free.append(p)
    elif op[0] == 'relink':
        p = free.pop(op[1])
        m.link_parameter(p) if op[2] is None else m.link_parameter(p, op[2])
    elif op[0] == 'replace':
        p = m.parameters[op[1]]
        m.unlink_parameter(p)
        m.link_parameter(Param(p.name, 2.), op[1])
        free.append(p)
    elif op[0] == 'move':
        m.link_parameter(m.parameters[op[1]], op[2])


@scenario('siblings', bounds='a node with I parameters named from an alphabet of ten names (clashing, numbered, clashing only when printed, equal to attributes, properties and methods of the node), then every sequence of L operations of link (last or first), rename, unlink, replacement, link again and move',
          quick=dict(I=2, L=1, alpha=ALPHA), thorough=dict(I=1, L=3, alpha=ALPHA[:1] + ALPHA[1:3] + ['a b', 'a_b', 'size', 'extra']), max_paths=(9000, 150000))
def siblings(H, I, L, alpha):
    m = Holder('m')
    free = []
    for i in range(I):
        m.link_parameter(Param(H.pick('name%d' % i, alpha), 1.))
    names_ok(H, m, 'at first: ')
    for s in range(L):
        op = H.pick('op%d' % s, ops_of(m, alpha, free))
        H.label(*op)
        n = len(m.parameters)
        old = [p.name for p in m.parameters]
        do_op(m, op, free)
        names_ok(H, m, 'after %s: ' % op[0])
        if op[0] == 'rename':
            H.check([p.name for k, p in enumerate(m.parameters) if k != op[1]][:op[1]] == old[:op[1]], 'names before the renamed one are kept')
            clash = adjust_name_for_printing(op[2]) in [adjust_name_for_printing(o) for k, o in enumerate(old) if k != op[1]]
            if not clash:
                H.check([p.name for p in m.parameters] == old[:op[1]] + [op[2]] + old[op[1] + 1:], 'only the renamed parameter changes its name')
        elif op[0] == 'unlink':
            H.check([p.name for p in m.parameters] == old[:op[1]] + old[op[1] + 1:], 'unlinking keeps the other names')


@scenario('two_moves', bounds='two parameters of the node and all sequences of two operations, on an alphabet of five names',
          quick=dict(alpha=ALPHA[:8]), thorough=dict(alpha=ALPHA[:8]), max_paths=(9000, 150000))
def two_moves(H, alpha):
    m = Holder('m')
    free = []
    m.link_parameter(Param('a', [1., 2.]))
    names_ok(H, m, 'at first: ')
    for s in range(2):
        op = H.pick('op%d' % s, ops_of(m, alpha, free))
        H.label(*op)
        do_op(m, op, free)
        names_ok(H, m, 'after %s: ' % op[0])


# ---------------------------------------------------------------------------
def paths_of(lab, t):
    """(object, path below t with printable names) in traversal order"""
    out = []

    def walk(nm, path):
        for k in lab.kids.get(nm, ()):
            s = path + [adjust_name_for_printing(lab.o[k].name)]
            out.append((k, s))
            walk(k, s)
    walk(t, [])
    return out


def bfs_ok(lab, found, want):
    return len(found) == len(want) and all(any(f is lab.o[w] for w in want) for f in found) and len(set(map(id, found))) == len(found)


def lists_ok(H, lab, tag):
    for t in tops(lab):
        root = lab.o[t]
        full = {nm: '.'.join([adjust_name_for_printing(root.name)] + p) for nm, p in paths_of(lab, t)}
        full[t] = adjust_name_for_printing(root.name)
        for nm in lab.nodes(t):
            o = lab.o[nm]
            H.check(o.hierarchy_name() == full[nm], tag + 'hierarchy name')
            if nm in lab.ref:
                continue
            below = paths_of(lab, nm)
            leaves = [k for k in lab.leaves(nm)]
            raw = {k: '.'.join(_raw(lab, nm, k)) for k in leaves}
            H.check(list(o.parameter_names()) == [raw[k] for k in leaves], tag + 'parameter names in element order')
            H.check(list(o.parameter_names(adjust_for_printing=True)) == ['.'.join(p) for k, p in below if k in lab.ref], tag + 'printable parameter names in element order')
            H.check(list(o.parameter_names(add_self=True)) == [o.name + '.' + raw[k] for k in leaves], tag + 'parameter names with the own name')
        for nm in lab.nodes(t):
            o = lab.o[nm]
            exp, fixed = [], []
            for k in lab.leaves(nm):
                sh = lab.o[k].shape
                n = len(lab.ref[k])
                for i, e in enumerate(lab.ref[k]):
                    exp.append((full[k], tuple(int(x) for x in np.unravel_index(i, sh)) if n > 1 else ()))
                    fixed.append(e.fixed)
            if not exp:
                continue
            H.check([_plain(x) for x in o.parameter_names_flat(include_fixed=True)] == exp, tag + 'one flat name per element in order')
            H.check([_plain(x) for x in o.parameter_names_flat()] == [x for x, f in zip(exp, fixed) if not f], tag + 'one flat name per free element in order')


def _raw(lab, top, k):
    out = []
    while k != top:
        out.insert(0, lab.o[k].name)
        k = lab.parent[k]
    return out


def _plain(s):
    """(path, index) of a flat name"""
    path, _, ix = str(s).partition('[')
    return path, tuple(int(x) for x in re.findall(r'\d+', ix.replace('int64', '')))


def grep_ok(H, lab, tag, patterns):
    for t in tops(lab):
        if t in lab.ref:
            continue
        below = paths_of(lab, t)
        full = {k: '.'.join(p) for k, p in below}
        for nm in lab.kids:
            if nm not in lab.nodes(t):
                continue
            inner = [k for k, _ in paths_of(lab, nm)]
            for pat in patterns + [re.escape(f) for f in full.values()] + [re.compile('.*' + f[-1] + '$') for f in full.values()]:
                want = [k for k in inner if re.match(pat, full[k])]
                found = lab.o[nm].grep_param_names(pat)
                H.check(bfs_ok(lab, found, want), tag + 'a regular expression finds exactly the matching parameters')
                if not want:
                    H.raises(AttributeError, lambda: lab.o[nm][pat], tag + 'nothing matches')
                    continue
                got = lab.o[nm][pat]
                if len(want) == 1:
                    H.check(got is lab.o[want[0]], tag + 'the only match is returned')
                else:
                    lv = [l for l in lab.leaves(nm) if any(l in lab.leaves(w) for w in want)]
                    H.check(isinstance(got, ParamConcatenation) and len(got.params) == len(lv) and all(any(p is lab.o[l] for p in got.params) for l in lv), tag + 'several matches are returned together')


def small(H, shapes):
    lab = Lab(H, SPECS[H.pick('shape', shapes)])
    el = lab.elems()
    g = H.choice('fixed', len(el) + 1) - 1
    if g >= 0:
        l, i = lab.locate(g)
        p = lab.o[l]
        p[tuple(slice(int(q), int(q) + 1) for q in np.unravel_index(i, p.shape))].fix()
        lab.ref[l][i].fixed = True
    return lab


@scenario('lists', bounds='three hierarchies of five elements, any element fixed or none, one operation (rename of any object to one of five names, replacement of a parameter, link, move or unlink anywhere), before and after it: name lists, flat names of every object, search by regular expressions from every node',
          quick=dict(shapes=['nested'], names=['a', 'b c', 'k-2', 'a_1']), thorough=dict(shapes=sorted(SPECS), names=['a', 'b c', 'k-2', 'a_1', 'root']), max_paths=(9000, 60000))
def lists(H, shapes, names):
    lab = small(H, shapes)
    lab.leaf('d', (1, 2))
    lab.parent['d'] = None
    GREP = ['.*', 'a', 'n', 'b$', '[abc]', 'nothing']
    lists_ok(H, lab, 'at first: ')
    grep_ok(H, lab, 'at first: ', GREP)
    how = H.pick('how', ['rename', 'replace', 'restructure'])
    if how == 'rename':
        nm = H.pick('object', list(lab.o))
        lab.o[nm].name = H.pick('newname', names)
    elif how == 'replace':
        # another parameter of the same name and shape in the same place
        nm = H.pick('object', [k for k in lab.ref if lab.parent.get(k)])
        old, up = lab.o[nm], lab.o[lab.parent[nm]]
        i = old._parent_index_
        up.unlink_parameter(old)
        lab.o[nm] = Param(nm, np.ones(old.shape))
        for e in lab.ref[nm]:
            e.fixed = False
        up.link_parameter(lab.o[nm], i)
    else:
        op = H.pick('op', lab_ops(lab))
        H.label(*op)
        do(lab, op)
    lists_ok(H, lab, '')
    grep_ok(H, lab, '', GREP)


@scenario('empty_leaf', bounds='a node with an empty parameter before, between or behind others; fixed elements')
def empty_leaf(H):
    at = H.choice('at', 3)
    m = Parameterized('m')
    ps = [Param('a', H.farray('a', 2)), Param('b', H.farray('b', 1))]
    ps.insert(at, Param('e', np.zeros(0)))
    m.link_parameters(*ps)
    w = [('m.a', (0,)), ('m.a', (1,)), ('m.b', ())]
    H.check([_plain(x) for x in m.parameter_names_flat(True)] == w, 'one name per element')
    f = H.choice('fix', 3)
    [m.a[:1], m.a[1:], m.b][f].fix()
    H.check([_plain(x) for x in m.parameter_names_flat()] == w[:f] + w[f + 1:], 'one name per free element')


BAD = ['1a', '', 'a:b', 'a%', 'a=b', u'\u00e4', '=(', '\na']


@scenario('rejected', bounds='linking (last or first) and renaming with eight names that have no printable form: NameError, everything stays as it was and keeps working')
def rejected(H):
    m, n = Holder('m'), Holder('n')
    m.link_parameters(Param('a', H.farray('a', 2)), n)
    n.link_parameter(Param('b', H.farray('b', 1)))
    vals = flat(m.param_array)
    bad = H.pick('bad', BAD)
    k = H.pick('kind', ['link', 'first', 'below', 'rename', 'rename_node', 'rename_below', 'link_node'])
    if bad == '' and k.startswith('link') or bad == '' and k in ('first', 'below'):
        return
    p = Param(bad, H.farray('p', 2))
    h = Holder(bad or 'h')
    if k == 'link':
        H.raises(NameError, lambda: m.link_parameter(p), 'linking')
    elif k == 'link_node':
        H.raises(NameError, lambda: m.link_parameter(h), 'linking')
    elif k == 'first':
        H.raises(NameError, lambda: m.link_parameter(p, 0), 'linking')
    elif k == 'below':
        H.raises(NameError, lambda: n.link_parameter(p), 'linking')
    else:
        o = {'rename': m.a, 'rename_node': n, 'rename_below': n.b}[k]

        def f():
            o.name = bad
        H.raises(NameError, f, 'renaming')
    H.check(not p.has_parent() and not h.has_parent(), 'a rejected parameter has no parent')
    H.check([o.name for o in (m, m.a, n, n.b)] == ['m', 'a', 'n', 'b'], 'names are as before')
    names_ok(H, m, 'after rejecting: ')
    H.check([x.name for x in m.parameters] == ['a', 'n'] and [x.name for x in n.parameters] == ['b'], 'structure is as before')
    H.eq(flat(m.param_array), vals, 'values are as before')
    H.check(list(m.parameter_names()) == ['a', 'n.b'], 'names are as before')
    m.link_parameter(Param('c', 1.))
    H.check(m.size == 4 and m.c[0] == 1., 'the hierarchy keeps working')


@scenario('hierarchy_name', bounds='names with special characters on three levels, printable or not')
def hierarchy_name(H):
    m, n, p = Holder(H.pick('m', ['m', 'm 1'])), Holder(H.pick('n', ['n', 'n-2'])), Param(H.pick('p', ['p', 'p.q']), 1.)
    n.link_parameter(p)
    m.link_parameter(n)
    raw = [o.name for o in (m, n, p)]
    H.check(p.hierarchy_name(False) == '.'.join(raw), 'plain hierarchy name')
    H.check(p.hierarchy_name() == '.'.join(map(adjust_name_for_printing, raw)), 'printable hierarchy name')
    H.check(list(n.parameter_names(add_self=True)) == [raw[1] + '.' + raw[2]], 'own name in front')
