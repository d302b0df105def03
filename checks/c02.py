"""Views on an index map are faithful windows."""
import numpy as np
from symx.harness import scenario
from paramz.core.index_operations import ParameterIndexOperations, ParameterIndexOperationsView
from . import setmodel as sm
from .indexlib import KEYS, compare


def base_map(H, two=True):
    ops = ParameterIndexOperations()
    a = [H.int('a', 0), H.int('b', 0)]
    ops.add(KEYS[0], np.array(a))
    model = {KEYS[0]: sm.union(sm.empty, a), KEYS[1]: sm.empty}
    if two:
        c = [H.int('c', 0)]
        ops.add(KEYS[1], np.array(c))
        model[KEYS[1]] = sm.union(sm.empty, c)
    return ops, model


def view_model(model, off, n):
    return {k: sm.window(m, off, n) for k, m in model.items()}


@scenario('window', bounds='any view (unbounded offset and size) of a map with two keys and three unbounded elements; for every element')
def window(H):
    ops, model = base_map(H)
    off, n = H.int('off', 0), H.int('n', 0)
    v = ParameterIndexOperationsView(ops, off, n)
    k = H.int('k')
    compare(H, v, view_model(model, off, n), k, 'view: ')
    compare(H, ops, model, k, 'base: ')
    H.observe('one', list(v[KEYS[0]]))


@scenario('window_of_window', bounds='any view of any view, all offsets and sizes unbounded, two unbounded elements; for every element')
def window_of_window(H):
    ops, model = base_map(H, two=False)
    off, n = H.int('off', 0), H.int('n', 0)
    off2, n2 = H.int('off2', 0), H.int('n2', 0)
    v = ParameterIndexOperationsView(ops, off, n)
    w = ParameterIndexOperationsView(v, off2, n2)
    k = H.int('k')
    compare(H, w, view_model(view_model(model, off, n), off2, n2), k, 'view of a view: ')


def edit(H, v, model, off, n, N, ops):
    """one edit through the view v; model is the model of the base"""
    op = H.pick(N, ops)
    H.label(N, op)
    m = model
    if op in ('add', 'remove', 'update'):
        j = H.int(N + 'j', 0)
        H.assume(j < n)
    if op == 'add':
        v.add(KEYS[0], np.array([j]))
        m[KEYS[0]] = sm.union(m[KEYS[0]], [j + off])
    elif op == 'remove':
        ret = v.remove(KEYS[0], np.array([j]))
        p = H.int(N + 'p')
        H.check(sm.iff(sm.isin(p, list(ret)), sm.band(sm.eq(p, j), m[KEYS[0]](p + off))), 'remove returns exactly the removed indices, as seen by the view')
        m[KEYS[0]] = sm.minus(m[KEYS[0]], [j + off])
    elif op == 'update':
        f = H.int(N + 'f', 0)
        H.assume(j + f < n)
        other = ParameterIndexOperations()
        other.add(KEYS[1], np.array([j]))
        v.update(other, f)
        m[KEYS[1]] = sm.union(m[KEYS[1]], [j + f + off])
        H.eq(list(other[KEYS[1]]), [j], 'the source of an update is unchanged')
    elif op == 'clear':
        v.clear()
        for key in KEYS:
            m[key] = (lambda f: lambda k: sm.band(f(k), sm.bor(sm.cv(k < off), sm.cv(k >= off + n))))(m[key])
    elif op == 'del':
        del v[KEYS[0]]
        m[KEYS[0]] = (lambda f: lambda k: sm.band(f(k), sm.bor(sm.cv(k < off), sm.cv(k >= off + n))))(m[KEYS[0]])
    elif op == 'right':
        st, sz = H.int(N + 's', 0), H.int(N + 'z', 0)
        v.shift_right(st, sz)
        for key in KEYS:
            m[key] = sm.shifted_right(m[key], st + off, sz)
    elif op == 'left':
        st, sz = H.int(N + 's', 0), H.int(N + 'z', 0)
        v.shift_left(st, sz)
        for key in KEYS:
            m[key] = sm.shifted_left(m[key], st + off, sz)
    elif op == 'copy':
        c = v.copy()
        k = H.int(N + 'k')
        compare(H, c, view_model(dict(m), off, n), k, 'copy of a view: ')
        c.add(KEYS[1], np.array([0]))
        c.shift_right(0, 2)
        c.clear()
    return m


EDITS = ['add', 'remove', 'update', 'clear', 'del', 'right', 'left', 'copy']


@scenario('edit_through_view', bounds='L edits through any view (unbounded offset, size, indices inside the window, gaps), map of two keys with three (quick: at least two) unbounded elements; base and view compared for every element',
          quick=dict(L=1, two=True), thorough=dict(L=2, two=True), max_paths=(6000, 200000))
def edit_through_view(H, L, two):
    ops, model = base_map(H, two)
    off, n = H.int('off', 0), H.int('n', 0)
    v = ParameterIndexOperationsView(ops, off, n)
    for s in range(L):
        model = edit(H, v, model, off, n, 'e%d' % s, EDITS)
    k = H.int('k')
    compare(H, ops, model, k, 'base after the edit: ')
    compare(H, v, view_model(model, off, n), k, 'view after the edit: ')
    H.observe('one', list(ops[KEYS[0]]))


@scenario('edit_through_view_of_view', bounds='one edit through any view of any view, map with one key of two unbounded elements', max_paths=(6000, 200000))
def edit_through_view_of_view(H):
    ops, model = base_map(H, two=False)
    off, n = H.int('off', 0), H.int('n', 0)
    off2, n2 = H.int('off2', 0), H.int('n2', 0)
    H.assume(off2 + n2 <= n)
    v = ParameterIndexOperationsView(ops, off, n)
    w = ParameterIndexOperationsView(v, off2, n2)
    model = edit(H, w, model, off + off2, n2, 'e', [e for e in EDITS if e != 'copy'])
    k = H.int('k')
    compare(H, ops, model, k, 'base after the edit: ')
    compare(H, w, view_model(model, off + off2, n2), k, 'inner view after the edit: ')


@scenario('lists', bounds='any view, a list of one to three (quick: two) indices inside the window, in any order and possibly repeated, added to (as an array) or removed from (as an array or list) a property; two unbounded elements; base, view and returned indices compared for every element',
          quick=dict(ns=[2]), thorough=dict(ns=[1, 2, 3]), max_paths=(6000, 200000))
def lists(H, ns):
    ops, model = base_map(H, two=False)
    off, n = H.int('off', 0), H.int('n', 0)
    v = ParameterIndexOperationsView(ops, off, n)
    js = [H.int('j%d' % i, 0) for i in range(H.pick('count', ns))]
    for j in js:
        H.assume(j < n)
    add = H.bool('add')
    ix = np.array(js) if add or H.bool('array') else list(js)
    k = H.int('k')
    if add:
        v.add(KEYS[0], ix)
        model[KEYS[0]] = sm.union(model[KEYS[0]], [j + off for j in js])
    else:
        ret = list(v.remove(KEYS[0], ix))
        H.check(sm.iff(sm.isin(k, ret), sm.band(sm.isin(k, js), model[KEYS[0]](k + off))), 'remove returns exactly the removed indices, as seen by the view')
        model[KEYS[0]] = sm.minus(model[KEYS[0]], [j + off for j in js])
    H.eq(list(ix), js, 'the list given is not changed')
    compare(H, ops, model, k, 'base after the edit: ')
    compare(H, v, view_model(model, off, n), k, 'view after the edit: ')


@scenario('base_changes', bounds='any edit of the base map shows through any view; two unbounded elements, unbounded gap', max_paths=(6000, 200000))
def base_changes(H):
    ops, model = base_map(H, two=False)
    off, n = H.int('off', 0), H.int('n', 0)
    v = ParameterIndexOperationsView(ops, off, n)
    op = H.pick('op', ['add', 'remove', 'right', 'left'])
    i = H.int('i', 0)
    key = KEYS[0]
    if op == 'add':
        ops.add(key, np.array([i]))
        model[key] = sm.union(model[key], [i])
    elif op == 'remove':
        ops.remove(key, np.array([i]))
        model[key] = sm.minus(model[key], [i])
    else:
        sz = H.int('z', 0)
        if op == 'right':
            ops.shift_right(i, sz)
            model[key] = sm.shifted_right(model[key], i, sz)
        else:
            ops.shift_left(i, sz)
            model[key] = sm.shifted_left(model[key], i, sz)
    compare(H, v, view_model(model, off, n), H.int('k'), 'view after an edit of the base: ')
