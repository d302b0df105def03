"""Import the code under test from /repo, either on the numpy emulator
(symbolic mode) or on the real numpy (replay mode)."""
import sys, os, types, builtins

REPO = os.environ.get('SYMX_REPO', '/repo')
sys.dont_write_bytecode = True
_mode = None


class _ScipyOptimize(types.ModuleType):
    """Optimisers are environment: a harness installs the one it wants."""
    impl = {}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def call(*a, **k):
            return _ScipyOptimize.impl[n](*a, **k)
        call.__name__ = n
        return call


_stubbed = []


def stub_scipy(name, fn):
    """let a harness stand in for scipy.optimize.<name>, until the end of the path"""
    if _mode:
        _ScipyOptimize.impl[name] = fn
        return
    import scipy.optimize as so
    old = getattr(so, name)
    for m in [so] + _paramz_modules():
        for k, v in list(vars(m).items()):
            if v is old:
                _stubbed.append((m, k, v))
                setattr(m, k, fn)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __call__(cls, *a):
        from . import sym as S, symnp
        if a:
            x = a[0]
            if isinstance(x, symnp.ndarray):
                x = x._one()
            if isinstance(x, S.SymReal):
                return x
            if isinstance(x, (S.SymInt, S.SymBool)):
                return S.SymReal(S._num(x))
            return float(x)
        return 0.0


class symfloat(metaclass=_FloatMeta):
    _real = float


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __call__(cls, *a):
        from . import sym as S, symnp
        import z3
        if len(a) == 1:
            x = a[0]
            if isinstance(x, symnp.ndarray):
                x = x._one()
            if isinstance(x, S.SymReal):
                return S.SymInt(-S.floor(-x.z)) if S.fork(S.lt(x, 0)) else S.SymInt(S.floor(x.z))
            if isinstance(x, S.SymInt):
                return x
            return int(x)
        return int(*a)


class symint(metaclass=_IntMeta):
    _real = int


def integers(module):
    """int() of a symbolic number stays symbolic in this module, until restore()"""
    if _mode:
        module.__dict__['int'] = symint


def boot(symbolic, concrete_random=False):
    global _mode
    if _mode is not None:
        return
    _mode = symbolic
    sys.path.insert(0, REPO)
    import decorator, six, logging  # noqa: native helpers, not under test
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    if symbolic:
        import numpy as rnp
        import numpy.testing
        from . import symnp
        m, mods = symnp.build(concrete_random)
        for k in list(sys.modules):
            if k in mods:
                sys.modules[k] = mods[k]
        sys.modules.update(mods)
        sp = types.ModuleType('scipy')
        sp.__path__ = []
        so = _ScipyOptimize('scipy.optimize')
        sp.optimize = so
        sys.modules['scipy'] = sp
        sys.modules['scipy.optimize'] = so
    import paramz
    assert os.path.realpath(paramz.__file__).startswith(os.path.realpath(REPO)), paramz.__file__
    import paramz.examples.ridge_regression, paramz.optimization.verbose_optimization, paramz.optimization.scg  # noqa
    if symbolic:
        for n, mod in list(sys.modules.items()):
            if n == 'paramz' or n.startswith('paramz.'):
                if not n.startswith('paramz.tests'):
                    mod.__dict__['float'] = symfloat
        from . import symstr
        import paramz.core.nameable as nb
        f = nb.adjust_name_for_printing
        home = sys.modules.get(getattr(f, '__module__', ''), nb)
        new = symstr.instrument(home)
        for n, mod in list(sys.modules.items()):
            if (n == 'paramz' or n.startswith('paramz.')) and mod.__dict__.get('adjust_name_for_printing') is f and f.__name__ in new:
                mod.__dict__['adjust_name_for_printing'] = new[f.__name__]
    snapshot()
    return paramz


_snap = None


def _paramz_modules():
    return [m for n, m in sys.modules.items() if (n == 'paramz' or n.startswith('paramz.')) and not n.startswith('paramz.tests')]


def snapshot():
    """remember module- and class-level state, so that every path starts alike"""
    global _snap
    import copy
    _snap = []
    seen = set()
    for m in _paramz_modules():
        owners = [m] + [c for c in vars(m).values() if isinstance(c, type) and getattr(c, '__module__', '').startswith('paramz')]
        for o in owners:
            if id(o) in seen:
                continue
            seen.add(id(o))
            d = dict(vars(o))
            cont = {k: copy.copy(v) for k, v in d.items() if type(v) in (list, dict, set) and not k.startswith('__')}
            _snap.append((o, d, cont))


def restore():
    _ScipyOptimize.impl.clear()
    while _stubbed:
        m, k, v = _stubbed.pop()
        setattr(m, k, v)
    for o, d, cont in _snap:
        cur = dict(vars(o))
        for k in cur:
            if k not in d:
                if k.startswith('__') or k.startswith('_abc_'):
                    continue
                try:
                    delattr(o, k)
                except (AttributeError, TypeError):
                    pass
            elif cur[k] is not d[k]:
                try:
                    setattr(o, k, d[k])
                except (AttributeError, TypeError):
                    pass
        for k, v in cont.items():
            t = d[k]
            if t != v if not isinstance(t, list) else (len(t) != len(v) or any(x is not y for x, y in zip(t, v))):
                if isinstance(t, list):
                    t[:] = v
                else:
                    t.clear()
                    t.update(v)
