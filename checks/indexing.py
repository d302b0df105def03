"""Index expressions and which flat elements they address (plain Python reference)."""


def axis(ix, n):
    """positions addressed along one axis"""
    if isinstance(ix, slice):
        return list(range(n))[ix]
    if isinstance(ix, int):
        return [range(n)[ix]]
    if ix and isinstance(ix[0], bool):
        return [i for i, b in enumerate(ix) if b]
    return [range(n)[int(i)] for i in ix]


def addressed(shape, ix):
    """flat indices addressed by the index expression, in order. At most one list or mask."""
    if isinstance(ix, Mask):
        flat = []
        for i, b in enumerate(ix.bits):
            if b:
                flat.append(i)
        return flat
    if not isinstance(ix, tuple):
        ix = (ix,)
    if Ellipsis in ix:
        k = ix.index(Ellipsis)
        ix = ix[:k] + (slice(None),) * (len(shape) - len(ix) + 1) + ix[k + 1:]
    ix = ix + (slice(None),) * (len(shape) - len(ix))
    pos = [axis(i, n) for i, n in zip(ix, shape)]
    # ints next to a list are broadcast with it, separated by a slice they would come first
    out = [0]
    for p, n in zip(pos, shape):
        out = [o * n + q for o in out for q in p]
    return out


class Mask:
    """boolean mask of the whole shape"""
    def __init__(self, bits, shape):
        self.bits, self.shape = bits, shape


def real_index(ix):
    import numpy as np

    def one(i):
        if isinstance(i, list):
            return np.array(i, dtype=bool if i and isinstance(i[0], bool) else int)
        return i
    if isinstance(ix, Mask):
        return np.array(ix.bits, dtype=bool).reshape(ix.shape)
    if isinstance(ix, tuple):
        return tuple(one(i) for i in ix)
    return one(ix)


def pick_slice(H, name, n, steps=(None, 1, 2, -1, -2)):
    b = [None] + list(range(-n - 1, n + 2))
    return slice(H.pick(name + '_start', b), H.pick(name + '_stop', b), H.pick(name + '_step', steps))


def pick_list(H, name, n, k):
    return [H.choice('%s_%d' % (name, j), 2 * n) - n for j in range(k)]


def pick_mask(H, name, shape):
    size = 1
    for s in shape:
        size *= s
    return Mask([H.bool('%s_%d' % (name, i)) for i in range(size)], shape)
