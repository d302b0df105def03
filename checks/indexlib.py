"""Comparison of index maps with the set model; edits on both."""
import numpy as np
from paramz.core.index_operations import ParameterIndexOperations
from . import setmodel as sm

KEYS = ['one', 'two']


def compare(H, ops, model, k, tag, keys=KEYS):
    """for every element k: membership, properties_for and sizes agree with the set model"""
    items = dict(ops.items())
    H.check(set(items) <= set(keys), tag + 'only keys that were added are listed')
    H.eqs(sorted(ops.properties()), sorted(items), tag + 'properties lists the keys with members')
    total = 0
    for key in keys:
        ind = items.get(key)
        lst = [] if ind is None else list(ind)
        H.check(ind is None or len(lst) > 0, tag + 'listed keys have members')
        H.check(sm.distinct(lst), tag + 'no element is listed twice')
        H.check(sm.iff(sm.isin(k, lst), model[key](k)), tag + 'membership is exactly the edited set')
        H.check(sm.iff(sm.isin(k, list(ops[key])), model[key](k)), tag + 'lookup by key agrees')
        total += len(lst)
    H.eq(ops.size, total, tag + 'size counts all memberships')
    pf = ops.properties_for(np.array([k]))
    got = list(pf[0])
    for key in keys:
        H.check(sm.iff(key in got, model[key](k)), tag + 'properties_for an element lists exactly its keys')
    H.check(len(set(got)) == len(got), tag + 'properties_for lists a key once')
    d = ops.properties_dict_for(np.array([k]))
    for key in keys:
        H.check(sm.iff(key in d, model[key](k)), tag + 'properties_dict_for has exactly the element\'s keys')
        if key in d:
            H.eq(list(d[key]), [k], tag + 'properties_dict_for gives the index back')


def step(H, ops, model, s, opsel, dup=False):
    """one edit on the real map and on the set model; returns the map to continue with"""
    N = 'o%d' % s
    op = H.pick(N, opsel)
    H.label(N, op)
    m = model
    if op in ('add', 'addone', 'add2'):
        key = KEYS[1] if op == 'addone' else KEYS[0]
        ix = [H.int(N + 'i', 0), H.int(N + 'j', 0)] if op == 'add2' else [H.int(N + 'i', 0)]
        ops.add(key, np.array(ix))
        m[key] = sm.union(m[key], ix)
    elif op in ('remove', 'remove2'):
        ix = [H.int(N + 'i', 0)] if op == 'remove' else [H.int(N + 'i', 0), H.int(N + 'j', 0)]
        if op == 'remove2' and not dup:
            H.assume(ix[0] != ix[1])
        ret = ops.remove(KEYS[0], np.array(ix))
        k = H.int(N + 'p', 0)
        H.check(sm.iff(sm.isin(k, list(ret)), sm.band(m[KEYS[0]](k), sm.isin(k, ix))), 'remove returns exactly the elements it took out')
        m[KEYS[0]] = sm.minus(m[KEYS[0]], ix)
    elif op == 'right':
        st, sz = H.int(N + 's', 0), H.int(N + 'n', 0)
        ops.shift_right(st, sz)
        for key in KEYS:
            m[key] = sm.shifted_right(m[key], st, sz)
    elif op == 'left':
        st, sz = H.int(N + 's', 0), H.int(N + 'n', 0)
        ops.shift_left(st, sz)
        for key in KEYS:
            m[key] = sm.shifted_left(m[key], st, sz)
    elif op == 'copy':
        old = ops
        ops = ops.copy()
        # the copy is detached: editing the original afterwards leaves it alone
        old.shift_right(0, 3)
        old.add(KEYS[0], np.array([1]))
        old.clear()
    elif op == 'update':
        other = ParameterIndexOperations()
        i = H.int(N + 'i', 0)
        off = H.int(N + 'f', 0)
        other.add(KEYS[0], np.array([i]))
        other.add(KEYS[1], np.array([i + 2]))
        ops.update(other, off)
        m[KEYS[0]] = sm.union(m[KEYS[0]], [i + off])
        m[KEYS[1]] = sm.union(m[KEYS[1]], [i + 2 + off])
        H.eq(list(other[KEYS[0]]), [i], 'the source of an update is unchanged')
    elif op == 'clear':
        ops.clear()
        for key in KEYS:
            m[key] = sm.empty
    elif op == 'del':
        if len(ops[KEYS[0]]) > 0:
            del ops[KEYS[0]]
        m[KEYS[0]] = sm.empty
    return ops
