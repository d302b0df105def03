"""Index maps behave as sets under every edit history."""
import numpy as np
from symx.harness import scenario
from paramz.core.index_operations import ParameterIndexOperations
from . import setmodel as sm
from .indexlib import KEYS, compare, step


@scenario('history', bounds='every history of L edits (add, remove, shift right/left) on a map with two keys, all indices, starts and sizes unbounded integers >= 0',
          quick=dict(L=2, sel=['add', 'addone', 'remove', 'right', 'left']), thorough=dict(L=3, sel=['add', 'add2', 'addone', 'remove', 'right', 'left']), max_paths=(9000, 150000))
def history(H, L, sel):
    ops = ParameterIndexOperations()
    model = {k: sm.empty for k in KEYS}
    ix = [H.int('a', 0), H.int('b', 0)]
    ops.add(KEYS[0], np.array(ix))
    model[KEYS[0]] = sm.union(model[KEYS[0]], ix)
    for s in range(L):
        ops = step(H, ops, model, s, sel)
    k = H.int('k')
    compare(H, ops, model, k, '')
    H.observe('one', list(ops[KEYS[0]]))
    H.observe('two', list(ops[KEYS[1]]))


@scenario('other_edits', bounds='histories with copy, update from another map at an unbounded offset, clear, delete, removal of two elements',
          quick=dict(L=2), thorough=dict(L=3), max_paths=(9000, 150000))
def other_edits(H, L):
    ops = ParameterIndexOperations()
    model = {k: sm.empty for k in KEYS}
    ix = [H.int('a', 0), H.int('b', 0)]
    ops.add(KEYS[0], np.array(ix))
    model[KEYS[0]] = sm.union(model[KEYS[0]], ix)
    for s in range(L):
        ops = step(H, ops, model, s, ['copy', 'clear', 'del', 'remove2', 'add', 'left'] if s else ['copy', 'update', 'right'])
    k = H.int('k')
    compare(H, ops, model, k, '')
    H.observe('one', list(ops[KEYS[0]]))


@scenario('repeated_index', bounds='removal of an index list that may repeat elements, on a map of two unbounded elements')
def repeated_index(H):
    ops = ParameterIndexOperations()
    model = {k: sm.empty for k in KEYS}
    ix = [H.int('a', 0), H.int('b', 0)]
    ops.add(KEYS[0], np.array(ix))
    model[KEYS[0]] = sm.union(model[KEYS[0]], ix)
    step(H, ops, model, 0, ['remove2'], dup=True)
    compare(H, ops, model, H.int('k'), '')


@scenario('insert_then_remove', bounds='opening a gap of any size at any place and closing it again restores the map; two keys, three unbounded elements')
def insert_then_remove(H):
    ops = ParameterIndexOperations()
    a = [H.int('a', 0), H.int('b', 0)]
    c = [H.int('c', 0)]
    ops.add(KEYS[0], np.array(a))
    ops.add(KEYS[1], np.array(c))
    st, sz = H.int('s', 0), H.int('n', 0)
    ops.shift_right(st, sz)
    ops.shift_left(st, sz)
    k = H.int('k')
    compare(H, ops, {KEYS[0]: lambda x: sm.isin(x, a), KEYS[1]: lambda x: sm.isin(x, c)}, k, 'after shift right and left: ')


@scenario('construct', bounds='a map constructed from another one\'s items holds the same sets and is detached')
def construct(H):
    a = [H.int('a', 0), H.int('b', 0)]
    ops = ParameterIndexOperations({KEYS[0]: np.array(a), KEYS[1]: np.array([a[0]])})
    k = H.int('k')
    compare(H, ops, {KEYS[0]: lambda x: sm.isin(x, a), KEYS[1]: lambda x: sm.isin(x, a[:1])}, k, 'constructed: ')
    o2 = ParameterIndexOperations(dict(ops.items()))
    o2.add(KEYS[1], np.array([a[1]]))
    o2.shift_right(0, 1)
    compare(H, ops, {KEYS[0]: lambda x: sm.isin(x, a), KEYS[1]: lambda x: sm.isin(x, a[:1])}, k, 'source of the construction: ')
    compare(H, o2, {KEYS[0]: lambda x: sm.isin(x, [i + 1 for i in a]), KEYS[1]: lambda x: sm.isin(x, [i + 1 for i in a])}, k, 'edited copy: ')


@scenario('lists', bounds='lists of N, M and R arbitrary, possibly repeated, unbounded indices: add the first, add the second, remove the third',
          quick=dict(N=1, M=2, R=2), thorough=dict(N=2, M=3, R=3), max_paths=(9000, 150000))
def lists(H, N, M, R):
    ops = ParameterIndexOperations()
    a = [H.int('a%d' % i, 0) for i in range(N)]
    b = [H.int('b%d' % i, 0) for i in range(M)]
    r = [H.int('r%d' % i, 0) for i in range(R)]
    ops.add(KEYS[1], np.array(a[:1]))
    ops.add(KEYS[0], np.array(a))
    ops.add(KEYS[0], np.array(b))
    k = H.int('k')
    one = sm.union(lambda x: sm.isin(x, a), b)
    H.check(sm.distinct(list(ops[KEYS[0]])), 'after adding: no element is listed twice')
    H.check(sm.iff(sm.isin(k, list(ops[KEYS[0]])), one(k)), 'after adding: exactly the added elements')
    ret = list(ops.remove(KEYS[0], np.array(r)))
    H.check(sm.distinct(ret), 'no removed element is reported twice')
    H.check(sm.iff(sm.isin(k, ret), sm.band(one(k), sm.isin(k, r))), 'remove returns exactly the elements it took out')
    compare(H, ops, {KEYS[0]: sm.minus(one, r), KEYS[1]: lambda x: sm.isin(x, a[:1])}, k, '')
