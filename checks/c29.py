"""Printed summaries list every parameter and element once, in order."""
import re
import numpy as np
from paramz import Param
from paramz.transformations import __fixed__
from paramz import transformations as T
from symx.harness import scenario
from .lab import Lab, Node, Mod, SPECS, Twice, Flip, LOG, constrain_op, lab_ops, do, tops, flat, pos_of
from .modlab import set_elem
from .indexing import addressed, real_index, Mask, pick_slice, pick_list, pick_mask

TAG = re.compile(r'<[^>]*>')


def strip(s):
    return re.sub('\033\\[[0-9;]*m', '', s)


def cells(line):
    return [c.strip() for c in strip(line).split('|')]


def rows_plain(text, n):
    """the last n+1 lines: header and rows"""
    lines = text.split('\n')
    return [cells(l) for l in lines[len(lines) - n - 1:]] if len(lines) > n else None


def rows_html(text):
    text = re.sub('(?s)<style.*?</style>', '', text)
    out = []
    for r in re.findall('(?s)<tr>(.*?)</tr>', text):
        out.append([TAG.sub('', c).strip() for c in re.findall('(?s)<t[dh][^>]*>(.*?)</t[dh]>', r)])
    return out


def words(e):
    """the constraints of one element as they are printed"""
    return sorted(([str(e.con)] if e.con is not None else []) + (['fixed'] if e.fixed else []))


def marks(el):
    """the constraints of a parameter: in braces if they do not cover it"""
    cons = []
    for e in el:
        for c in ([e.con] if e.con is not None else []) + ([__fixed__] if e.fixed else []):
            if not any(c is d for d in cons):
                cons.append(c)
    out = []
    for c in cons:
        n = sum(1 for e in el if e.con is c or (c is __fixed__ and e.fixed))
        out.append(str(c) if n == len(el) else '{%s}' % c)
    return sorted(out)


def number(H, text):
    return H.number(text.strip('[] '))


def check_summary(H, lab, nm, rows, form):
    """header and one row for every parameter below, in order"""
    lv = lab.leaves(nm)
    H.check(rows is not None and len(rows) == len(lv) + 1, form + 'as many rows as parameters')
    head = [h for h in rows[0]]
    H.check(len(head) >= 3 and head[0] == nm + '.' and head[1] == 'value' and 'constraints' in head[2:], form + 'the header names the object and the columns')
    k = head.index('constraints')
    for l, r in zip(lv, rows[1:]):
        el, path = lab.ref[l], [l]
        while lab.parent.get(path[0]) not in (None, nm) and path[0] != nm:
            path.insert(0, lab.parent[path[0]])
        H.check(len(r) == len(head), form + 'every row has every column')
        H.check(r[0] == '.'.join(path), form + 'every parameter by its name below the object, in order')
        if len(el) == 1:
            H.eq(number(H, r[1]), el[0].v, form + 'the value of a single element')
        else:
            H.check(r[1] == str(lab.o[l].shape), form + 'the shape of a parameter')
        H.check(sorted(r[k].split()) == marks(el), form + 'exactly the constraints of a parameter')
        H.check(all(not c for j, c in enumerate(r) if j > 1 and j != k), form + 'no other properties')


def check_elements(H, p, rows, idx, el, form):
    """header and one row for every element"""
    H.check(rows is not None and len(rows) == len(el) + 1, form + 'as many rows as elements')
    head = rows[0]
    H.check(len(head) >= 3 and head[1] == p.hierarchy_name() and 'constraints' in head[2:], form + 'the header names the parameter and the columns')
    k = head.index('constraints')
    for i, e, r in zip(idx, el, rows[1:]):
        H.check(len(r) == len(head), form + 'every row has every column')
        H.check(tuple(int(q) for q in r[0].strip('[]').split()) == i, form + 'the index of every element, in order')
        H.eq(number(H, r[1]), e.v, form + 'the value of every element')
        H.check(sorted(r[k].split()) == words(e), form + 'exactly the constraints of every element')


def print_param(H, p, idx, el, t=''):
    for v in (True, False):
        check_elements(H, p, rows_plain(p.__str__(VT100=v), len(el)), idx, el, t + 'plain: ')
    check_elements(H, p, rows_plain(str(p), len(el)), idx, el, t + 'plain: ')
    check_elements(H, p, rows_html(p._repr_html_()), idx, el, t + 'html: ')


def print_node(H, lab, nm, t=''):
    o = lab.o[nm]
    n = len(lab.leaves(nm))
    for v in (True, False):
        check_summary(H, lab, nm, rows_plain(o.__str__(VT100=v), n), t + 'plain: ')
    check_summary(H, lab, nm, rows_plain(str(o), n), t + 'plain: ')
    check_summary(H, lab, nm, rows_html(o._repr_html_()), t + 'html: ')


def print_all(H, lab, names=None):
    n = len(LOG)
    for nm in names or [d for r in tops(lab) for d in lab.nodes(r)]:
        if nm in lab.ref:
            print_param(H, lab.o[nm], [pos_of(lab.o[nm], i) for i in range(len(lab.ref[nm]))], lab.ref[nm])
        else:
            print_node(H, lab, nm)
    H.check(len(LOG) == n, 'printing updates nothing')
    for r in tops(lab):
        lab.check('printing changes nothing: ', lab.nodes(r))


@scenario('constrained', bounds='hierarchies of five elements and depth three; up to K operations constraining, fixing or releasing any object or element; every object printed in every form',
          quick=dict(specs=['nested'], K=2), thorough=dict(specs=list(SPECS), K=2), max_paths=(4000, 60000))
def constrained(H, specs, K):
    H.formatting(True)
    lab = Lab(H, SPECS[H.pick('spec', specs)], root_cls=Mod)
    ops = ('constrain', 'fix', 'unfix', 'unconstrain')
    for k in range(K):
        constrain_op(H, lab, 'k%d' % k, cons=(Twice, Flip) if K < 2 else (Twice,), ops=ops)
    print_all(H, lab)


@scenario('moved', bounds='one element constrained and one fixed, two operations moving, removing or adding objects anywhere; every object printed',
          quick=dict(specs=['nested', 'one'], L=1), thorough=dict(specs=list(SPECS), L=2), max_paths=(3000, 60000))
def moved(H, specs, L):
    H.formatting(True)
    lab = Lab(H, SPECS[H.pick('spec', specs)])
    n = len(lab.elems())
    l, i = lab.locate(H.choice('constrained', n))
    set_elem(lab, l, i, Twice(), H.bool('both'))
    lab.look = H.bool('printed')
    if lab.look:
        print_all(H, lab)
    for k in range(L):
        ops = lab_ops(lab)
        op = ops[H.choice('op%d' % k, len(ops))]
        H.label(*op)
        do(lab, op)
    print_all(H, lab)


@scenario('empty', bounds='hierarchies with empty parameters anywhere, one element or object constrained; every object printed',
          quick=dict(), thorough=dict(), max_paths=(3000, 20000))
def empty(H):
    H.formatting(True)
    spec = H.pick('spec', [('root', [('e', 0), ('a', 2)]), ('root', [('a', 1), ('n', [('e', (0, 2))]), ('b', 1)]), ('root', [('n', []), ('e', (2, 0))])])
    lab = Lab(H, spec, root_cls=Mod)
    if lab.elems():
        constrain_op(H, lab, '', cons=(Twice,), ops=('constrain', 'fix'))
    print_all(H, lab)


@scenario('subsets', bounds='a parameter of four elements behind another one, any subset of its elements constrained and any fixed: summaries of every node',
          quick=dict(shapes=[(4,)]), thorough=dict(shapes=[(4,), (2, 2), (5,)]), max_paths=(3000, 20000))
def subsets(H, shapes):
    H.formatting(True)
    lab = Lab(H, ('root', [('b', 1), ('n', [('a', tuple(H.pick('shape', [tuple(s) for s in shapes])))])]))
    p, el = lab.o['a'], lab.ref['a']
    for t in ('con', 'fix'):
        m = np.array([H.bool('%s%d' % (t, i)) for i in range(len(el))])
        if not m.any():
            continue
        sel = p[m.reshape(p.shape)]
        if t == 'con':
            sel.constrain(Twice())
        else:
            sel.fix()
        for e, b in zip(el, m):
            if b and t == 'con':
                e.con = Twice()
            elif b:
                e.fixed = True
    print_all(H, lab, ['root', 'n'])


SHAPES = [(3,), (2, 2), (1, 3), (2, 1, 2)]


@scenario('elements', bounds='parameters of up to four elements and three dimensions, alone or in a model, any element constrained, fixed or both; any slice, list or mask of it printed',
          quick=dict(shapes=SHAPES[:3], kinds=['slice', 'int', 'mask', 'second', 'rest']), thorough=dict(shapes=SHAPES, kinds=['slice', 'int', 'list', 'mask', 'second', 'rest']), max_paths=(30000, 200000))
def elements(H, shapes, kinds):
    H.formatting(True)
    shape = tuple(H.pick('shape', [tuple(s) for s in shapes]))
    if H.bool('inside'):
        lab = Lab(H, ('root', [('z', 2), ('n', [('p', shape)])]))
    else:
        lab = Lab(H, ('p', shape))
    el = lab.ref['p']
    c, f = H.choice('con', len(el) + 1) - 1, H.choice('fix', len(el) + 1) - 1
    if c >= 0:
        set_elem(lab, 'p', c, Twice())
    if f >= 0:
        set_elem(lab, 'p', f, el[f].con, True)
    kind = H.pick('kind', kinds)
    p = lab.o['p']
    n = shape[0]
    if kind == 'slice':
        ix = pick_slice(H, 's', n, (None, 2, -1))
    elif kind == 'int':
        ix = H.choice('i', 2 * n) - n
    elif kind == 'list':
        ix = pick_list(H, 'l', n, 2)
        H.assume(ix[0] % n != ix[1] % n)
    elif kind == 'mask':
        ix = pick_mask(H, 'm', shape)
    elif kind == 'second':
        ix = (slice(None), H.choice('j', 2)) if len(shape) > 1 and shape[1] > 1 else (slice(None),)
    else:
        ix = (Ellipsis, slice(H.pick('from', [None, 1, -1]), None))
    at = addressed(shape, ix)
    H.assume(len(at) > 0)
    q = p[real_index(ix)]
    H.assume(isinstance(q, Param))
    idx = [pos_of(p, i) for i in at]
    print_param(H, q, idx, [el[i] for i in at])
    lab.check('printing changes nothing: ')


@scenario('matched', bounds='several parameters of a model matched by name and printed together, elements of the concatenation as well',
          quick=dict(), thorough=dict(), max_paths=(3000, 20000))
def matched(H):
    H.formatting(True)
    lab = Lab(H, ('root', [('ax', 2), ('n', [('ay', 1), ('b', 2)]), ('az', (1, 2))]))
    n = len(lab.elems())
    for k in range(2):
        j = H.choice('marked%d' % k, n)
        l, i = lab.locate(j)
        set_elem(lab, l, i, Twice() if k else lab.ref[l][i].con, not k or lab.ref[l][i].fixed)
    names = {'a': ['ax', 'az'], '.*a': ['ax', 'ay', 'az'], '': ['ax', 'ay', 'b', 'az'], 'n': ['ay', 'b'], 'ax|.*b': ['ax', 'b']}
    rx = H.pick('regex', sorted(names))
    got = lab.root[rx]
    want = [(l, i) for l in names[rx] for i in range(len(lab.ref[l]))]
    part = H.pick('part', ['all', 'from one', 'ends'])
    if part == 'from one':
        got, want = got[1:], want[1:]
    elif part == 'ends':
        got, want = got[[0, len(want) - 1]], [want[0], want[-1]]
    groups = []
    for l, i in want:
        if not groups or groups[-1][0] != l:
            groups.append((l, []))
        groups[-1][1].append(i)
    for text in (str(got), got.__str__(VT100=False)):
        lines = text.split('\n')
        H.check(len(lines) == len(want) + len(groups), 'one row for every element and a heading for every parameter')
        for k, (l, at) in enumerate(groups):
            part, lines = lines[:len(at) + 1], lines[len(at) + 1:]
            r = [cells(x) for x in part]
            if k:
                H.check(set(r[0][2]) <= set('-') and r[0][2:] and set(r[0][0]) == set('-'), 'the columns are named once')
                r[0] = ['index', r[0][1], 'constraints'] + r[0][3:]
            check_elements(H, lab.o[l], r, [pos_of(lab.o[l], i) for i in at], [lab.ref[l][i] for i in at], 'together: ')
    lab.check('printing changes nothing: ')




@scenario('model', bounds='a model with an arbitrary objective, some elements fixed, updates on or off: the lines above the summary',
          quick=dict(), thorough=dict(), max_paths=(3000, 20000))
def model(H):
    H.formatting(True)
    lab = Lab(H, SPECS['nested'], root_cls=Mod)
    m = lab.root
    n = len(lab.elems())
    val = H.real('value')
    m.objective = lambda self: val
    for k in range(2):
        l, i = lab.locate(H.choice('fixed%d' % k, n))
        set_elem(lab, l, i, lab.ref[l][i].con, True)
    on = H.bool('on')
    if not on:
        m.update_model(False)
    free = sum(not e.fixed for e in lab.elems())
    for form, text in (('plain', str(m)), ('plain', m.__str__(VT100=False)), ('html', TAG.sub('', m._repr_html_()))):
        got = dict(re.findall(r'(?m)^\s*([A-Za-z ]+?)\s*:\s*(.*?)\s*$', text))
        H.check(got.get('Name', got.get('Model')) == 'root', form + ': the name of the model')
        H.eq(number(H, got['Objective']), val, form + ': the value of the objective')
        H.eq(int(got['Number of Parameters']), n, form + ': the number of elements')
        H.eq(int(got['Number of Optimization Parameters']), free, form + ': the number of free elements')
        H.check(got['Updates'] == str(bool(on)), form + ': whether it is updated')
    H.check(bool(m.update_model()) == bool(on), 'printing does not switch updates')
    lab.check('printing changes nothing: ')


BUILT_IN = {'+ve': [T.Logexp, T.Exponent], '-ve': [T.NegativeLogexp, T.NegativeExponent], '+sq': [T.Square]}


@scenario('built_in', bounds='a parameter of three elements with any two of the built-in transformations (bounded ones with four pairs of bounds) and a fix on arbitrary elements: sign or bounds are printed for exactly those elements', max_paths=(6000, 6000))
def built_in(H):
    p, m = Param('p', np.array([.5, .25, .75])), Node('m')
    if H.bool('linked'):
        m.link_parameter(p)
    kinds = [(s, t()) for s in sorted(BUILT_IN) for t in BUILT_IN[s]] + [(b, T.Logistic(*b)) for b in ((0., 1.), (0., 1.5), (-2., 1.), (.25, 12.5))]
    want = [None] * 3
    for k in range(2):
        i = H.choice('i%d' % k, 3)
        s, t = H.pick('t%d' % k, kinds)
        p[[i]].constrain(t, warning=False)
        want[i] = s
    f = H.pick('f', [1, 3])
    if f < 3:
        p[[f]].fix(warning=False)

    def same(text, i):
        got = text.split()
        fixed = [g for g in got if g.strip('{}') == 'fixed']
        rest = [g.strip('{}') for g in got if g.strip('{}') != 'fixed']
        H.check(len(fixed) == (f == i or (i is None and f < 3)), 'fixed elements are marked')
        exp = sorted(set([w for w in want if w is not None] if i is None else [w for w in want[i:i + 1] if w is not None]), key=str)
        H.check(len(rest) == len(exp), 'as many constraints as there are')
        H.check(sorted([tuple(float(x) for x in r.split(',')) if ',' in r else r for r in rest], key=str) == exp, 'sign or bounds of the constraints')
    for text in (p.__str__(VT100=False), str(p)):
        for i, r in enumerate(rows_plain(text, 3)[1:]):
            same(r[2], i)
    for i, r in enumerate(rows_html(p._repr_html_())[1:]):
        same(r[2], i)
    if p._parent_ is m and not (want[0] in ('+ve', '-ve') and want[0] in want[1:]) and not (want[1] in ('+ve', '-ve') and want[1] == want[2]):
        for rows in (rows_plain(str(m), 1), rows_html(m._repr_html_())):
            same(rows[1][2], None)


@scenario('again', bounds='hierarchies of up to five elements printed with one element constrained or fixed, then printed again with another element instead, and with other values or the same',
          quick=dict(specs=['nested']), thorough=dict(specs=list(SPECS)), max_paths=(3000, 20000))
def again(H, specs):
    H.formatting(True)
    lab = Lab(H, SPECS[H.pick('spec', specs)], root_cls=Mod)
    n = len(lab.elems())
    for k in range(2):
        l, i = lab.locate(H.choice('which%d' % k, n))
        fx = H.bool('fix%d' % k)
        set_elem(lab, l, i, None if fx else Twice(), fx)
        H.label(l, i, fx)
        print_all(H, lab)
        p = lab.o[l]
        (p.unfix if fx else p.unconstrain)()
        lab.ref[l][i].con, lab.ref[l][i].fixed = None, False
        if k == 0 and H.bool('values'):
            v = H.reals('v', n)
            lab.root[:] = np.array(v)
            for e, x in zip(lab.elems(), v):
                e.v = x
