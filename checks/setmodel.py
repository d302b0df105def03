"""Set algebra on membership predicates; works for symbolic and plain integers."""


def _b(x):
    return x


def bor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return a | b


def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return a & b


def bnot(a):
    return (not a) if isinstance(a, bool) else ~a


def cv(x):
    """plain bool for numpy bools"""
    return bool(x) if type(x).__name__ in ('bool_', 'bool') else x


def eq(a, b):
    return cv(a == b)


def iff(a, b):
    a, b = cv(a), cv(b)
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    return a == b


def isin(k, lst):
    r = False
    for x in lst:
        r = bor(r, eq(k, x))
    return r


def distinct(lst):
    r = True
    for i in range(len(lst)):
        for j in range(i):
            r = band(r, cv(lst[i] != lst[j]))
    return r


def empty(k):
    return False


def union(m, ix):
    ix = list(ix)
    return lambda k: bor(m(k), isin(k, ix))


def minus(m, ix):
    ix = list(ix)
    return lambda k: band(m(k), bnot(isin(k, ix)))


def shifted_right(m, st, sz):
    return lambda k: bor(band(cv(k < st), m(k)), band(cv(k >= st + sz), m(k - sz)))


def shifted_left(m, st, sz):
    return lambda k: bor(band(cv(k < st), m(k)), band(cv(k >= st), m(k + sz)))


def window(m, off, n):
    return lambda k: band(band(cv(k >= 0), cv(k < n)), m(k + off))
