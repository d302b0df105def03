"""Symbolic scalars and the path context.

A value that depends on an input is a SymReal / SymInt / SymBool wrapping a z3
term.  Converting a SymBool to a Python bool asks the current path context to
decide (fork) it; everything else builds terms.  Machine floats are modelled as
exact reals plus the concrete specials inf/-inf/nan (see DESIGN.md).
"""
import sys, math, numbers, fractions
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from z3 import z3core as _zc
import os as _os
if not _os.environ.get('SYMX_Z3CHECK'):
    _zc.Elementaries.Check = lambda self, ctx: None     # no error polling after every API call
    z3.z3.Z3_DEBUG = False

Fraction = fractions.Fraction


class Unsupported(BaseException):
    """The encoding does not cover an operation the code performed."""


class PathInfeasible(BaseException):
    """An assumption contradicts the path condition."""


class PathLimit(BaseException):
    """A stated bound of the exploration was reached on this path."""


def rv(x):
    """z3 real numeral for a Python number (exact)."""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    f = Fraction(float(x))
    return z3.RealVal(f)


_mctx = z3.main_ctx().ref()


def bval(z):
    """1 true, -1 false, 0 neither (after simplification)"""
    return _zc.Z3_get_bool_value(_mctx, z.ast)


class Ctx:
    """One symbolic path."""
    RLIMIT = 3000000        # per feasibility query (deterministic)
    FINAL_RLIMIT = 60000000
    MAX_FORKS = 4000

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # outcome of every fork, in order
        self.siblings = []       # prefixes still to explore
        self.solver = z3.Solver()
        self.solver.set('rlimit', self.RLIMIT)
        self.solver.set('timeout', 20000)
        self.pc = []
        self.model = None
        self.newmodel = None
        self.inputs = {}         # name -> (kind, z3 var)
        self.nqueries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.exp_terms = []      # list of (arg, expterm)
        self.exp_cache = {}
        self.fresh_n = 0
        self.rnd_n = 0
        self.float_as = None     # value C-level __float__ returns (formatting only)
        self.concretised = []
        self.registry = []
        self.scratch = {}
        self.freed = False       # memory was given back on this path
        self.defs = {}           # auxiliary variable -> (function, argument)

    # -- solver helpers
    def _check(self, *conds):
        import time
        t = time.time()
        self.nqueries += 1
        r = self.solver.check(*conds)
        self.solver_time += time.time() - t
        return r

    def add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)
        if self.model is not None and bval(self.model.eval(cond, model_completion=True)) != 1:
            self.model = None

    def sat(self, cond):
        """is pc and cond satisfiable? remembers the model"""
        if self.model is not None and bval(self.model.eval(cond, model_completion=True)) == 1:
            return z3.sat
        r = self._check(cond)
        if r == z3.sat:
            self.newmodel = self.solver.model()
        return r

    def assume(self, cond):
        cond = z3.simplify(cond)
        b = bval(cond)
        if b == 1:
            return
        if b == -1:
            raise PathInfeasible()
        self.add(cond)
        if len(self.trace) >= len(self.prefix) and self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r == z3.sat:
                self.model = self.solver.model()

    def fork(self, cond, raw=True):
        """Decide a boolean term; explores the other outcome later."""
        if raw:
            cond = z3.simplify(cond)
        b = bval(cond)
        if b == 1:
            return True
        if b == -1:
            return False
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            if n > self.MAX_FORKS:
                raise PathLimit('more than %d forks' % self.MAX_FORKS)
            self.newmodel = None
            rt = self.sat(cond)
            if rt == z3.unsat:
                d = 0
            else:
                mt = self.newmodel
                rf = self.sat(z3.Not(cond))
                if rf == z3.unsat:
                    d = 1
                else:
                    if rt == z3.unknown or rf == z3.unknown:
                        self.unknowns += 1
                    d = 1
                    self.siblings.append(self.trace + [0])
                if mt is not None:
                    self.model = mt
        self.trace.append(d)
        self.add(cond if d else z3.Not(cond))
        return bool(d)

    def choose(self, term, lo, hi):
        """Concretise an integer term to one of lo..hi (n-way fork)."""
        for v in range(lo, hi):
            if self.fork(term == v):
                return v
        # last value: everything else has been excluded
        return hi

    def concretise_int(self, term, limit=64):
        """Enumerating concretisation of an int term (complete: one fork per value)."""
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(limit):
            n = len(self.trace)
            # deterministic candidate: smallest feasible value is expensive; use model value recorded in trace
            if n < len(self.prefix):
                d = self.prefix[n]
                # entries are ('v', value, taken)
                v, taken = d[1], d[2]
                self.trace.append(d)
                if taken:
                    self.add(t == v)
                    return v
                self.add(t != v)
                continue
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r != z3.sat:
                raise Unsupported('cannot concretise integer')
            m = self.solver.model()
            v = m.eval(t, model_completion=True).as_long()
            r2 = self._check(t != v)
            if r2 != z3.unsat:
                self.siblings.append(self.trace + [('v', v, False)])
            self.trace.append(('v', v, True))
            self.add(t == v)
            return v
        raise PathLimit('integer with more than %d values' % limit)

    # -- inputs
    def new_input(self, kind, name):
        if name in self.inputs:
            raise RuntimeError('duplicate input %s' % name)
        v = {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[kind](name)
        self.inputs[name] = (kind, v)
        return v

    def fresh(self, kind, tag):
        self.fresh_n += 1
        return {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[kind]('%s!%d' % (tag, self.fresh_n))

    # -- exp / log
    def exp(self, t):
        t = z3.simplify(t, som=True)
        if z3.is_rational_value(t) and t.numerator_as_long() == 0:
            return z3.RealVal(1)
        key = t.get_id()
        if key in self.exp_cache:
            return self.exp_cache[key][1]
        k, i = (1, t) if z3.is_app_of(t, z3.Z3_OP_ITE) else (None, None)
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and z3.is_app_of(t.arg(1), z3.Z3_OP_ITE):
            k, i = t.arg(0), t.arg(1)
        if i is not None:
            r = z3.If(i.arg(0), self.exp(k * i.arg(1)), self.exp(k * i.arg(2)))
            self.exp_cache[key] = (t, r)
            return r
        E = z3.Function('EXP', z3.RealSort(), z3.RealSort())
        e = E(t)
        ax = [e > 0, e >= 1 + t]
        if z3.is_rational_value(t):
            lo, hi = exp_bounds(Fraction(t.numerator_as_long(), t.denominator_as_long()))
            ax += [e >= rv_frac(lo), e <= rv_frac(hi)]
        ax += [(t == 0) == (e == 1), (t > 0) == (e > 1)]
        for c, lo, hi in LANDMARKS:
            ax += [z3.Implies(t >= c, e >= lo), z3.Implies(t <= c, e <= hi)]
        neg = z3.simplify(-t, som=True)
        for (a, ea) in self.exp_terms:
            ax.append((a < t) == (ea < e))
            ax.append((a == t) == (ea == e))
            if neg.eq(a):
                ax.append(e * ea == 1)
        self.exp_terms.append((t, e))
        self.exp_cache[key] = (t, e)
        for a in ax:
            self.add(a)
        return e

    def log(self, y):
        """y > 0 is on the path."""
        y = z3.simplify(y)
        if z3.is_app(y) and y.decl().name() == 'EXP':
            return y.arg(0)
        for (a, ea) in self.exp_terms:
            if ea.eq(y):
                return a
        key = ('log', y.get_id())
        if key in self.exp_cache:
            return self.exp_cache[key][1]
        l = self.fresh('real', 'log')
        self.defs[l.decl().name()] = ('log', y)
        self.exp_cache[key] = (y, l)
        others = list(self.exp_terms)
        e = self.exp(l)
        self.add(e == y)
        for a, ea in others:
            self.add((l == -a) == (y * ea == 1))
        return l


def rv_frac(f):
    return z3.RealVal(f)


def exp_bounds(q):
    """rational lower/upper bounds of exp(q), relative width about 1e-18."""
    import decimal
    if abs(q) > 2000:
        return (Fraction(0), Fraction(1, 10**800)) if q < 0 else (Fraction(10)**800, Fraction(10)**(int(q) + 2))
    with decimal.localcontext() as c:
        c.prec = 40
        d = decimal.Decimal(q.numerator) / decimal.Decimal(q.denominator)
        e = d.exp()
        f = Fraction(e)
    eps = f / 10**18
    return f - eps, f + eps


LANDMARKS = [(z3.RealVal(c),) + tuple(rv_frac(b) for b in exp_bounds(Fraction(c))) for c in (-36, -20, 20, 36)]
CTX = None


def ctx():
    return CTX


def note_freed():
    if CTX is not None:
        CTX.freed = True


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- scalars
class Sym:
    __slots__ = ('z', 'rid')
    __array_ufunc__ = None
    ndim = 0
    shape = ()
    size = 1
    T = property(lambda s: s)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        CTX.registry.append(self)
        return (_lookup, (len(CTX.registry) - 1,))

    def copy(self):
        return self

    def item(self):
        return self

    def any(self, *a, **k):
        return self if isinstance(self, SymBool) else self != 0

    all = any

    def sum(self, *a, **k):
        return self

    max = min = mean = sum

    def squeeze(self):
        return self

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __repr__(self):
        if CTX is not None and CTX.float_as is not None:
            return repr(float(self))
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        if CTX is not None and CTX.float_as is not None:
            x = CTX.float_as(self)
            return format(int(x) if isinstance(self, (SymInt, SymBool)) and float(x) == int(x) else x, spec)
        return '<sym>'

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)


def _lookup(i):
    return CTX.registry[i]


def is_sym(x):
    return isinstance(x, Sym)


def _num(x):
    """classify a Python/numpy number: ('s', special float) or ('z', real term, is_int)"""
    if isinstance(x, SymReal):
        return x.z
    if isinstance(x, SymInt):
        return z3.ToReal(x.z)
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    return rv(x)


def _isspecial(x):
    return not isinstance(x, Sym) and (x != x or x in (math.inf, -math.inf))


def _isnum(x):
    return isinstance(x, (Sym, int, float, bool)) or (isinstance(x, numbers.Number) and not isinstance(x, complex))


def mkreal(z):
    return SymReal(z)


def concrete_of(z):
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        return float(Fraction(z.numerator_as_long(), z.denominator_as_long()))
    return None


def fork(c):
    if isinstance(c, SymBool):
        return CTX.fork(c.z, False)
    return bool(c)


def sbool(x):
    """to z3 Bool"""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, (SymReal, SymInt)):
        return x.z != 0
    return z3.BoolVal(bool(x))


def wrapb(z):
    z = z3.simplify(z)
    b = bval(z)
    if b:
        return b == 1
    return SymBool(z)


def add(a, b):
    if _isspecial(a) or _isspecial(b):
        if is_sym(a) or is_sym(b):
            return b if is_sym(a) else a
        return a + b
    if isinstance(a, (int, SymInt, bool, SymBool)) and isinstance(b, (int, SymInt, bool, SymBool)):
        return SymInt(_i(a) + _i(b))
    if not is_sym(a) and a == 0:
        return SymReal(_num(b))
    if not is_sym(b) and b == 0:
        return SymReal(_num(a))
    return SymReal(_num(a) + _num(b))


def sub(a, b):
    return add(a, neg(b))


def neg(a):
    if isinstance(a, SymInt):
        return SymInt(-a.z)
    if is_sym(a):
        return SymReal(-_num(a))
    return -a


def sign_of(a):
    """forks the sign: -1, 0, 1"""
    if fork(gt(a, 0)):
        return 1
    if fork(lt(a, 0)):
        return -1
    return 0


def mul(a, b):
    if _isspecial(a) or _isspecial(b):
        if is_sym(a):
            a, b = b, a
        if not is_sym(b):
            return a * b
        if a != a:
            return a
        s = sign_of(b)
        return a * s if s else math.nan
    if isinstance(a, (int, SymInt, bool, SymBool)) and isinstance(b, (int, SymInt, bool, SymBool)):
        return SymInt(_i(a) * _i(b))
    for u, v in ((a, b), (b, a)):
        if not is_sym(u):
            if u == 0:
                return 0.0
            if u == 1:
                return SymReal(_num(v))
    # bool * real is selection
    for u, v in ((a, b), (b, a)):
        if isinstance(u, SymBool):
            return SymReal(z3.If(u.z, _num(v), z3.RealVal(0)))
    return SymReal(_num(a) * _num(b))


def div(a, b):
    if _isspecial(b):
        return b if b != b else 0.0
    if _isspecial(a):
        if a != a:
            return a
        s = sign_of(b)
        return a * (s or 1)
    if not is_sym(b):
        if b == 0:
            s = sign_of(a)
            return math.inf * math.copysign(1, b) * s if s else math.nan
        return SymReal(_num(a) / rv(b))
    if fork(eq(b, 0)):
        if not is_sym(a):
            return math.nan if a == 0 else math.copysign(math.inf, a)
        s = sign_of(a)
        return math.inf * s if s else math.nan
    if not is_sym(a) and a == 0:
        return 0.0
    k = _proportion(_num(a), _num(b))
    if k is not None:
        return k
    return SymReal(_num(a) / _num(b))


def _consts(t, seen, out):
    if t.get_id() in seen:
        return True
    seen.add(t.get_id())
    if len(seen) > 400:
        return False
    if z3.is_const(t):
        if not z3.is_rational_value(t):
            if t.sort() != z3.RealSort() or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return False
            out.append(t)
        return True
    if t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return False
    return all(_consts(c, seen, out) for c in t.children())


def _proportion(n, d):
    """k where n = k d for polynomials, or None"""
    vs, seen = [], set()
    if not _consts(n, seen, vs) or not _consts(d, seen, vs):
        return None
    point = [(v, z3.RealVal(3 + 2 * i * i)) for i, v in enumerate(vs)]
    dn, dd = [z3.simplify(z3.substitute(t, *point)) for t in (n, d)]
    if not (z3.is_rational_value(dn) and z3.is_rational_value(dd)) or dd.numerator_as_long() == 0:
        return None
    from fractions import Fraction
    k = Fraction(dn.numerator_as_long(), dn.denominator_as_long()) / Fraction(dd.numerator_as_long(), dd.denominator_as_long())
    r = z3.simplify(n - z3.RealVal(k) * d, som=True)
    if not (z3.is_rational_value(r) and r.numerator_as_long() == 0):
        return None
    f = float(k)
    return f if Fraction(f) == k else SymReal(z3.RealVal(k))


def floor(z):
    """largest integer below a real term"""
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        return z3.IntVal(z.numerator_as_long() // z.denominator_as_long())
    if z.decl().kind() == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    key = ('floor', z.get_id())
    if key not in CTX.scratch:
        q = CTX.fresh('int', 'floor')
        CTX.defs[q.decl().name()] = ('floor', z)
        CTX.add(z3.And(z3.ToReal(q) <= z, z < z3.ToReal(q) + 1))
        CTX.scratch[key] = (z, q)
    return CTX.scratch[key][1]


def floordiv(a, b):
    if isinstance(a, (int, SymInt)) and isinstance(b, int) and not isinstance(b, bool) and b > 0:
        return SymInt(_i(a) / b)
    if isinstance(b, (int, float)) and not isinstance(b, bool) and b > 0 and isinstance(a, SymReal):
        return SymReal(z3.ToReal(floor(a.z / rv(b))))
    raise Unsupported('floor division of symbolic values')


def mod(a, b):
    if isinstance(a, (int, SymInt)) and isinstance(b, int) and b > 0:
        return SymInt(_i(a) % b)
    if isinstance(b, (int, float)) and not isinstance(b, bool) and b > 0 and isinstance(a, SymReal):
        return sub(a, mul(floordiv(a, b), b))
    raise Unsupported('modulo of symbolic values')


def power(a, b):
    if isinstance(b, SymInt):
        b = CTX.concretise_int(b.z)
    if is_sym(b):
        raise Unsupported('symbolic exponent')
    b = b.item() if hasattr(b, 'item') else b
    if float(b) == int(b) and abs(b) <= 8:
        n = int(abs(b))
        if n == 0:
            return 1 if isinstance(a, SymInt) and isinstance(b, int) else 1.0
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        if isinstance(b, float) and isinstance(r, SymInt):
            r = SymReal(_num(r))
        return r if b > 0 else div(1.0, r)
    if b == 0.5:
        return sqrt(a)
    raise Unsupported('power %r' % (b,))


def sqrt(a):
    if not is_sym(a):
        return math.sqrt(a) if a >= 0 else math.nan
    if fork(lt(a, 0)):
        return math.nan
    z = z3.simplify(_num(a))
    key = ('sqrt', z.get_id())
    if key in CTX.scratch:
        return SymReal(CTX.scratch[key][1])
    r = CTX.fresh('real', 'sqrt')
    CTX.defs[r.decl().name()] = ('sqrt', z)
    CTX.scratch[key] = (z, r)
    CTX.add(z3.And(r >= 0, r * r == z))
    return SymReal(r)


_OVER = 709.782712893384
_UNDER = -745.1332191019412


def exp(a):
    if not is_sym(a):
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf
    if fork(gt(a, _OVER)):
        return math.inf
    if fork(lt(a, _UNDER)):
        return 0.0
    return SymReal(CTX.exp(_num(a)))


def log(a):
    if not is_sym(a):
        if a != a or a < 0:
            return math.nan
        return -math.inf if a == 0 else math.log(a)
    if fork(gt(a, 0)):
        return SymReal(CTX.log(_num(a)))
    if fork(eq(a, 0)):
        return -math.inf
    return math.nan


def log1p(a):
    if not is_sym(a):
        return math.nan if a != a or a < -1 else (-math.inf if a == -1 else math.log1p(a))
    return log(add(1.0, a))


def expm1(a):
    if not is_sym(a):
        try:
            return math.expm1(a)
        except OverflowError:
            return math.inf
    e = exp(a)
    return sub(e, 1.0) if is_sym(e) else e - 1.0


def ite(c, a, b):
    """c: SymBool/bool; numbers"""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return wrapb(z3.If(c.z, sbool(a), sbool(b)))
    if not _isnum(a) or not _isnum(b) or _isspecial(a) or _isspecial(b):
        return a if fork(c) else b
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return SymInt(z3.If(c.z, _i(a), _i(b)))
    return SymReal(z3.If(c.z, _num(a), _num(b)))


def absolute(a):
    if not is_sym(a):
        return abs(a)
    if isinstance(a, SymInt):
        return SymInt(z3.If(a.z < 0, -a.z, a.z))
    z = _num(a)
    return SymReal(z3.If(z < 0, -z, z))


def sign(a):
    if not is_sym(a):
        return a if a != a else (1.0 if a > 0 else (-1.0 if a < 0 else 0.0))
    z = _num(a)
    if isinstance(a, SymInt):
        return SymInt(z3.If(a.z > 0, 1, z3.If(a.z < 0, -1, 0)))
    return float(sign_of(a))


def maximum(a, b):
    if _isspecial(a) and a != a:
        return a
    if _isspecial(b) and b != b:
        return b
    return ite(ge(a, b), a, b)


def minimum(a, b):
    if _isspecial(a) and a != a:
        return a
    if _isspecial(b) and b != b:
        return b
    return ite(le(a, b), a, b)


def _i(x):
    if isinstance(x, SymInt):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def _cmp(op):
    import operator
    pyop = getattr(operator, op)

    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            return pyop(a, b)
        if not _isnum(a) or not _isnum(b):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            raise TypeError('cannot compare')
        if _isspecial(a) or _isspecial(b):
            # the symbolic side is a finite real
            return pyop(0.0 if is_sym(a) else a, 0.0 if is_sym(b) else b)
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)) and op in ('eq', 'ne'):
            r = sbool(a) == sbool(b)
            return wrapb(r if op == 'eq' else z3.Not(r))
        if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
            return wrapb(pyop(_i(a), _i(b)))
        return wrapb(pyop(_num(a), _num(b)))
    return f


eq, ne, lt, le, gt, ge = (_cmp(o) for o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'))


def b_and(a, b):
    if isinstance(a, (SymReal, SymInt)) or isinstance(b, (SymReal, SymInt)):
        a, b = truth(a), truth(b)
    if not is_sym(a):
        return b if a else False
    if not is_sym(b):
        return a if b else False
    return wrapb(z3.And(sbool(a), sbool(b)))


def b_or(a, b):
    if isinstance(a, (SymReal, SymInt)) or isinstance(b, (SymReal, SymInt)):
        a, b = truth(a), truth(b)
    if not is_sym(a):
        return True if a else b
    if not is_sym(b):
        return True if b else a
    return wrapb(z3.Or(sbool(a), sbool(b)))


def b_xor(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) != bool(b)
    return wrapb(z3.Xor(sbool(a), sbool(b)))


def b_not(a):
    return wrapb(z3.Not(sbool(a))) if is_sym(a) else not a


def truth(a):
    if isinstance(a, SymBool) or not is_sym(a):
        return a if is_sym(a) else bool(a)
    return ne(a, 0)


_arr_type = ()      # set by symnp: the emulated ndarray class


def _bin(fn, swap=False):
    def m(self, other):
        if isinstance(other, _arr_type) or not _isnum(other):
            return NotImplemented
        if hasattr(other, 'item') and not isinstance(other, Sym):
            other = other.item()
        return fn(other, self) if swap else fn(self, other)
    return m


class SymReal(Sym):
    __slots__ = ()

    def __init__(self, z):
        self.z = z

    @property
    def dtype(self):
        import symx.symnp as s
        return s.rnp.dtype('float64')

    def __bool__(self):
        return CTX.fork(self.z != 0)

    def __float__(self):
        if CTX.float_as is not None:
            return CTX.float_as(self)
        raise Unsupported('float() of a symbolic value in native code')

    def __int__(self):
        raise Unsupported('int() of a symbolic real')

    def astype(self, dt):
        return self

    def __round__(self, *a):
        raise Unsupported('round')


class SymInt(Sym):
    __slots__ = ()

    def __init__(self, z):
        self.z = z

    @property
    def dtype(self):
        import symx.symnp as s
        return s.rnp.dtype('int64')

    def __bool__(self):
        return CTX.fork(self.z != 0)

    def __index__(self):
        return CTX.concretise_int(self.z)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def astype(self, dt):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __init__(self, z):
        self.z = z

    @property
    def dtype(self):
        import symx.symnp as s
        return s.rnp.dtype('bool')

    def __bool__(self):
        return CTX.fork(self.z, False)

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        return NotImplemented if isinstance(o, _arr_type) else b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return NotImplemented if isinstance(o, _arr_type) else b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return NotImplemented if isinstance(o, _arr_type) else b_xor(self, o)

    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def astype(self, dt):
        return self


for _n, _f in (('add', add), ('sub', sub), ('mul', mul), ('truediv', div), ('floordiv', floordiv),
               ('mod', mod), ('pow', power)):
    for _c in (SymReal, SymInt, SymBool):
        setattr(_c, '__%s__' % _n, _bin(_f))
        setattr(_c, '__r%s__' % _n, _bin(_f, True))
for _n, _f in (('eq', eq), ('ne', ne), ('lt', lt), ('le', le), ('gt', gt), ('ge', ge)):
    for _c in (SymReal, SymInt, SymBool):
        setattr(_c, '__%s__' % _n, _bin(_f))
for _c in (SymReal, SymInt, SymBool):
    _c.__neg__ = neg
    _c.__pos__ = lambda s: s
    _c.__abs__ = absolute
SymReal.__hash__ = Sym.__hash__
SymInt.__hash__ = lambda s: hash(s.__index__())
SymBool.__hash__ = lambda s: hash(bool(s))
numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)
numbers.Integral.register(SymBool)
