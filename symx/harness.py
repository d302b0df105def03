"""What a scenario sees.  The same scenario code runs symbolically (numpy is the
emulator, inputs are z3 terms) and concretely (real numpy, inputs from a file)."""
import math, collections
SCENARIOS = []


class Scenario:
    def __init__(self, name, fn, bounds, quick, thorough, max_paths, timeout, expect_cov, nice):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.params = {'quick': quick, 'thorough': thorough}
        self.max_paths = max_paths
        self.timeout = timeout
        self.nice = nice
        self.expect_cov = expect_cov


_current = None
_loaded = {}


def scenario(name=None, bounds='', quick=(), thorough=(), max_paths=(2000, 40000), timeout=60, cover=(), nice=True):
    """quick / thorough: parameter dict, or None to leave the scenario out of quick."""
    def deco(fn):
        q = None if quick is None else dict(quick)
        t = q if thorough == () else thorough
        _current.append(Scenario(name or fn.__name__, fn, bounds or (fn.__doc__ or '').strip(), q, t, max_paths, timeout, cover, nice))
        return fn
    return deco


def load(prop):
    """import checks/<prop>.py and return its scenarios"""
    global _current
    import importlib
    if prop in _loaded:
        return _loaded[prop]
    _current = []
    m = importlib.import_module('checks.' + prop.lower())
    r = list(_current)
    names = [s.name for s in r]
    assert len(set(names)) == len(names), names
    _loaded[prop] = (m, r)
    return m, r


class ReplayInvalid(BaseException):
    pass


class Known:
    """finding id, condition on the inputs under which it is that finding"""
    def __init__(self, fid, when=True):
        self.fid, self.when = fid, when


def _is_spec(x):
    return x != x or x in (math.inf, -math.inf)


DRAWS = {'n': 0}     # replay: numbers drawn from np.random


class Base:
    def reals(self, name, n, **k):
        return [self.real('%s%d' % (name, i), **k) for i in range(n)]

    def farray(self, name, shape, **k):
        import numpy as np
        n = 1
        for s in (shape if isinstance(shape, tuple) else (shape,)):
            n *= s
        return np.array(self.reals(name, n, **k), dtype=float).reshape(shape)

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choice(name, len(seq))]

    def raises(self, exc, fn, msg, known=None):
        """fn() must raise exc; returns True when it did"""
        try:
            fn()
        except exc:
            return True
        self.check(False, msg + ' (nothing was raised)', known)
        return False

    def eqs(self, a, b, msg, known=None):
        """equality of plain structures (lists of strings, ints...)"""
        self.check(a == b, '%s: %r != %r' % (msg, a, b) if self.mode == 'conc' else msg, known)

    def flat(self, x):
        import numpy as np
        if isinstance(x, np.ndarray):
            return list(np.asarray(x).reshape(-1).tolist()), tuple(x.shape)
        if isinstance(x, (list, tuple)):
            out, shp = [], None
            for e in x:
                f, s = self.flat(e)
                out += f
                shp = s
            return out, (len(x),) + (shp or ())
        if hasattr(x, 'tolist') and not self._sym(x):
            return self.flat(np.asarray(x))
        return [x], ()


class SymH(Base):
    mode = 'sym'

    def __init__(self, ctx):
        from . import sym as S
        self.S = S
        self.c = ctx
        self.checks = []      # (cond term, msg, known)
        self.observed = []
        self.uf_tables = {}
        self.labels = collections.OrderedDict()
        self.bounded_reals = []

    def _sym(self, x):
        return isinstance(x, self.S.Sym)

    # inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nonzero=False):
        v = self.c.new_input('real', name)
        import z3
        rvx = self.S.rv
        if lo is not None:
            self.c.assume(v > rvx(lo) if lo_open else v >= rvx(lo))
        if hi is not None:
            self.c.assume(v < rvx(hi) if hi_open else v <= rvx(hi))
        if nonzero:
            self.c.assume(v != 0)
        return self.S.SymReal(v)

    def int(self, name, lo=None, hi=None):
        v = self.c.new_input('int', name)
        if lo is not None:
            self.c.assume(v >= lo)
        if hi is not None:
            self.c.assume(v <= hi)
        return self.S.SymInt(v)

    def text(self, name, n):
        """string of n arbitrary characters"""
        from . import symstr
        out = []
        for i in range(n):
            v = self.c.new_input('int', '%s%d' % (name, i))
            self.c.assume(symstr.valid(v))
            out.append(symstr.new_char(v))
        return ''.join(out)

    def codes(self, s):
        from . import symstr
        return [symstr.code_sym(c) for c in s]

    def choice(self, name, n):
        v = self.c.new_input('int', name)
        if n == 1:
            self.c.add(v == 0)
            return 0
        self.c.add(v >= 0)
        self.c.add(v < n)
        return self.c.choose(v, 0, n - 1)

    def bool(self, name):
        return self.choice(name, 2) == 1

    def assume(self, cond):
        self.c.assume(self.S.sbool(cond))

    # uninterpreted function
    def uf(self, name, *args):
        import z3
        S = self.S
        zs = [S._num(a) if not isinstance(a, S.SymReal) else a.z for a in args]
        f = z3.Function(name, *([z3.RealSort()] * (len(zs) + 1)))
        t = f(*zs)
        self.uf_tables.setdefault(name, []).append((zs, t))
        return S.SymReal(t)

    def axiom(self, cond):
        """defines an uninterpreted function; not a restriction of the inputs"""
        self.c.add(self.S.sbool(cond))

    def derivative(self, fn, x):
        """d fn(x) / d x at an input x"""
        from .diff import diff
        y = fn(x)
        if not self._sym(y):
            return 0.0
        return self.S.SymReal(diff(self.S._num(y), x.z))

    # assertions
    def check(self, cond, msg, known=None):
        import z3
        S = self.S
        z = S.sbool(S.truth(cond)) if isinstance(cond, S.Sym) else z3.BoolVal(bool(cond))
        z = z3.simplify(z)
        self.checks.append((z, msg, known))

    def eq(self, a, b, msg, known=None):
        import z3
        S = self.S
        fa, sa = self.flat(a)
        fb, sb = self.flat(b)
        if sa != sb and sa != () and sb != ():
            self.check(False, '%s (shape %s vs %s)' % (msg, sa, sb), known)
            return
        if len(fa) != len(fb):
            if sa == ():
                fa = fa * len(fb)
            elif sb == ():
                fb = fb * len(fa)
        conds = []
        for x, y in zip(fa, fb):
            if not S.is_sym(x) and not S.is_sym(y):
                if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                    ok = x == y
                elif x != x or y != y:
                    ok = x != x and y != y
                elif _is_spec(x) or _is_spec(y):
                    ok = x == y
                else:
                    ok = abs(x - y) <= 1e-9 * (1 + abs(x))
                if not ok:
                    conds.append(z3.BoolVal(False))
                continue
            c = S.eq(x, y)
            conds.append(S.sbool(c))
            if isinstance(c, S.SymBool) and not _is_spec(0 if S.is_sym(x) else x) and not _is_spec(0 if S.is_sym(y) else y):
                d = S._num(x) - S._num(y)
                self.bounded_reals.append(d)
        self.checks.append((z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True), msg, known))

    def observe(self, name, value):
        f, s = self.flat(value)
        self.observed.append((name, f))

    def label(self, *what):
        """human-readable step for the violation report"""
        pass

    def random_draws(self):
        """how many numbers were drawn from the global random generator"""
        return self.c.rnd_n

    def number(self, tag):
        """the symbolic number a number in formatted text stands for"""
        for t, n in self.tags:
            if n == float(tag):
                return self.S.SymReal(t)
        return float(tag)

    def formatting(self, tags=True, unequal=True):
        """from now on, native formatting of a symbolic number gives a number standing
        for it: the same for equal values, different values are assumed to be unequal (unless told not to); without tags it is always the same number"""
        if not tags:
            self.c.float_as = lambda x: 1001.0
            return
        tags = self.tags = []
        c, S = self.c, self.S
        import z3

        def tag(x):
            t = z3.simplify(S._num(x))
            if z3.is_rational_value(t):
                return t.numerator_as_long() / t.denominator_as_long()
            for u, n in tags:
                if u.eq(t):
                    return n
            for u, n in tags:
                if c._check(t != u) == z3.unsat:
                    tags.append((t, n))
                    return n
            for u, n in tags:
                if unequal:
                    c.assume(t != u)
            n = 1001.0 + len(tags)
            tags.append((t, n))
            return n
        c.float_as = tag


class ConcH(Base):
    mode = 'conc'

    def __init__(self, inputs, ufs=None):
        self.inputs = inputs
        self.ufs = ufs or {}
        self.failures = []
        self.observed = []
        self.used = set()
        self.steps = []

    def _sym(self, x):
        return False

    def _get(self, name, default):
        self.used.add(name)
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, nonzero=False):
        d = 0.5 if lo is None else lo + (0.5 if hi is None else (hi - lo) / 2.)
        if lo is None and hi is not None:
            d = hi - 0.5
        v = float(self._get(name, d))
        if (lo is not None and (v < lo or lo_open and v <= lo)) or (hi is not None and (v > hi or hi_open and v >= hi)) or (nonzero and v == 0):
            raise ReplayInvalid(name)
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else (hi if hi is not None else 0)))

    def text(self, name, n):
        return ''.join(chr(int(self._get('%s%d' % (name, i), 97))) for i in range(n))

    def codes(self, s):
        return [ord(c) for c in s]

    def choice(self, name, n):
        return int(self._get(name, 0))

    def bool(self, name):
        return bool(self.choice(name, 2))

    def assume(self, cond):
        import numpy as np
        if not bool(np.all(cond)):
            raise ReplayInvalid('assumption')

    def uf(self, name, *args):
        args = [float(a) for a in args]
        best = None
        for xs, y in self.ufs.get(name, []):
            d = max(abs(x - a) / (1 + abs(x)) for x, a in zip(xs, args))
            if d < 1e-7 and (best is None or d < best[0]):
                best = (d, y)
        if best is not None:
            return best[1]
        return 0.123 + sum((i + 1.5) * a for i, a in enumerate(args))

    def axiom(self, cond):
        pass

    def derivative(self, fn, x):
        h = 1e-3 * min(1., abs(x)) if x else 1e-3
        return float((fn(x - 2 * h) - 8 * fn(x - h) + 8 * fn(x + h) - fn(x + 2 * h)) / (12 * h))

    def check(self, cond, msg, known=None):
        import numpy as np
        if not bool(np.all(cond)):
            self.failures.append((msg, self._known(known)))

    def _known(self, known):
        if known is None:
            return None
        for k in (known if isinstance(known, (list, tuple)) else [known]):
            if bool(k.when):
                return k.fid
        return None

    def eq(self, a, b, msg, known=None):
        fa, sa = self.flat(a)
        fb, sb = self.flat(b)
        if sa != sb and sa != () and sb != ():
            self.failures.append(('%s (shape %s vs %s)' % (msg, sa, sb), self._known(known)))
            return
        if len(fa) != len(fb):
            if sa == ():
                fa = fa * len(fb)
            elif sb == ():
                fb = fb * len(fa)
        for x, y in zip(fa, fb):
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                ok = x == y
            elif x != x or y != y:
                ok = x != x and y != y
            elif _is_spec(x) or _is_spec(y):
                ok = x == y
            else:
                ok = abs(x - y) <= 1e-6 * (1 + max(abs(x), abs(y)))
            if not ok:
                self.failures.append(('%s: %r vs %r' % (msg, _short(fa), _short(fb)), self._known(known)))
                return

    def observe(self, name, value):
        f, s = self.flat(value)
        self.observed.append((name, [x if isinstance(x, (int, float, str, bool)) or x is None else repr(x) for x in f]))

    def formatting(self, tags=True, unequal=True):
        pass

    def number(self, tag):
        return float(tag)

    def random_draws(self):
        return DRAWS['n']

    def label(self, *what):
        self.steps.append(' '.join(str(w) for w in what))


def _short(l):
    return l if len(l) <= 12 else l[:12] + ['...']
