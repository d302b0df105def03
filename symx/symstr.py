"""Strings with symbolic characters.

A symbolic character is a placeholder from a private-use plane inside an ordinary
Python string, so that joining, slicing, formatting and iterating work as they are.
Everything that looks at characters (comparing, searching, replacing, regular
expressions, lookups) is routed through this module by rewriting the syntax tree of
the functions under test when they are loaded; a decision about a character forks
the path on its code point."""
import ast, inspect, operator, re, sys, textwrap
import z3
from . import sym as S

try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:
    import sre_parse
    import sre_constants as sre_c

BASE = 0xF0000
ROOM = 4096


def is_ph(c):
    return BASE <= ord(c) < BASE + ROOM


def has(s):
    return isinstance(s, str) and any(BASE <= ord(c) < BASE + ROOM for c in s)


def new_char(term):
    t = S.CTX.scratch.setdefault('chars', [])
    t.append(term)
    return chr(BASE + len(t) - 1)


def code(c):
    """code point: z3 term or int"""
    return S.CTX.scratch['chars'][ord(c) - BASE] if is_ph(c) else ord(c)


def code_sym(c):
    v = code(c)
    return v if isinstance(v, int) else S.SymInt(v)


def valid(term):
    return z3.And(term >= 0, term <= 0x10FFFF, z3.Or(term < 0xD800, term > 0xDFFF), z3.Or(term < BASE, term >= BASE + ROOM))


def fork(cond):
    if isinstance(cond, bool):
        return cond
    return S.CTX.fork(cond)


def ch_eq(a, b):
    if a == b:
        return True
    x, y = code(a), code(b)
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return fork(x == y)


def ch_cmp(a, b, f):
    x, y = code(a), code(b)
    if isinstance(x, int) and isinstance(y, int):
        return f(x, y)
    return fork(f(x, y))


_intervals = {}


def pred(key, f):
    """decide f(character) for a symbolic character, f being a predicate on real characters"""
    if key not in _intervals:
        iv, start = [], None
        for o in range(0x110000):
            ok = bool(f(chr(o)))
            if ok and start is None:
                start = o
            elif not ok and start is not None:
                iv.append((start, o - 1))
                start = None
        if start is not None:
            iv.append((start, 0x10FFFF))
        _intervals[key] = iv

    def decide(c):
        if not is_ph(c):
            return bool(f(c))
        t = code(c)
        return fork(z3.Or([t == a if a == b else z3.And(t >= a, t <= b) for a, b in _intervals[key]]) if _intervals[key] else z3.BoolVal(False))
    return decide


# -- strings
def eq(a, b):
    return len(a) == len(b) and all(ch_eq(x, y) for x, y in zip(a, b))


def at(s, i, sub):
    return i + len(sub) <= len(s) and all(ch_eq(x, y) for x, y in zip(s[i:i + len(sub)], sub))


def find(s, sub, start=0, end=None):
    n = len(s)
    start, end, _ = slice(start, end).indices(n)
    for i in range(start, end - len(sub) + 1):
        if at(s, i, sub):
            return i
    return -1


def rfind(s, sub, start=0, end=None):
    start, end, _ = slice(start, end).indices(len(s))
    for i in range(end - len(sub), start - 1, -1):
        if at(s, i, sub):
            return i
    return -1


def replace(s, old, new, count=-1):
    if old == '':
        return s.replace(old, new, count)
    out, i, n = [], 0, 0
    while i < len(s):
        if n != count and at(s, i, old):
            out.append(new)
            i += len(old)
            n += 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def split(s, sep=None, maxsplit=-1):
    if sep is None:
        sp = pred('isspace', str.isspace)
        out, cur, n = [], '', 0
        for i, c in enumerate(s):
            if n != maxsplit and sp(c):
                if cur:
                    out.append(cur)
                    n += 1
                cur = ''
            else:
                cur += c
        return out + ([cur] if cur else [])
    out, i = [], 0
    while len(out) != maxsplit:
        j = find(s, sep, i)
        if j < 0:
            break
        out.append(s[i:j])
        i = j + len(sep)
    return out + [s[i:]]


def partition(s, sep):
    i = find(s, sep)
    return (s, '', '') if i < 0 else (s[:i], sep, s[i + len(sep):])


def rpartition(s, sep):
    i = rfind(s, sep)
    return ('', '', s) if i < 0 else (s[:i], sep, s[i + len(sep):])


def _strippable(chars):
    if chars is None:
        return pred('isspace', str.isspace)
    return lambda c: any(ch_eq(c, x) for x in chars)


def lstrip(s, chars=None):
    f = _strippable(chars)
    i = 0
    while i < len(s) and f(s[i]):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    f = _strippable(chars)
    i = len(s)
    while i > 0 and f(s[i - 1]):
        i -= 1
    return s[:i]


def _prefixes(p):
    return p if isinstance(p, tuple) else (p,)


def startswith(s, p, start=0, end=None):
    t = s[slice(start, end)]
    return any(at(t, 0, x) for x in _prefixes(p))


def endswith(s, p, start=0, end=None):
    t = s[slice(start, end)]
    return any(len(x) <= len(t) and at(t, len(t) - len(x), x) for x in _prefixes(p))


def count(s, sub):
    n = i = 0
    while True:
        j = find(s, sub, i)
        if j < 0:
            return n
        n, i = n + 1, j + max(len(sub), 1)


def index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0:
        raise ValueError('substring not found')
    return i


def translate(s, table):
    out = []
    for c in s:
        if not is_ph(c):
            out.append(c.translate(table))
            continue
        for k in table:
            if fork(code(c) == k):
                v = table[k]
                out.append('' if v is None else chr(v) if isinstance(v, int) else v)
                break
        else:
            out.append(c)
    return ''.join(out)


def isidentifier(s):
    return len(s) > 0 and pred('id_start', str.isidentifier)(s[0]) and all(pred('id_rest', lambda c: ('a' + c).isidentifier())(c) for c in s[1:])


METHODS = {'replace': replace, 'find': find, 'rfind': rfind, 'index': index, 'split': split, 'partition': partition, 'rpartition': rpartition, 'lstrip': lstrip, 'rstrip': rstrip,
           'strip': lambda s, c=None: rstrip(lstrip(s, c), c), 'startswith': startswith, 'endswith': endswith, 'count': count, 'translate': translate, 'isidentifier': isidentifier,
           'removeprefix': lambda s, p: s[len(p):] if startswith(s, p) else s, 'removesuffix': lambda s, p: s[:len(s) - len(p)] if p and endswith(s, p) else s,
           '__contains__': lambda s, x: find(s, x) >= 0, '__eq__': eq}
for _n in ('isalpha', 'isalnum', 'isdigit', 'isdecimal', 'isnumeric', 'isspace', 'isascii', 'isprintable'):
    METHODS[_n] = (lambda f, n: lambda s: (len(s) > 0 or n in ('isascii', 'isprintable')) and all(pred(n, f)(c) for c in s))(getattr(str, _n), _n)
TRANSPARENT = {'join', 'format', '__add__', '__mul__', '__len__', '__getitem__', '__iter__', '__str__', '__format__', '__mod__', 'center', 'ljust', 'rjust'}


# -- regular expressions
class Match:
    def __init__(self, s, start, end, groups, names):
        self.string, self._s, self._e, self._g, self._n = s, start, end, groups, names

    def _span(self, k):
        if isinstance(k, str):
            k = self._n[k]
        return (self._s, self._e) if k == 0 else self._g.get(k, (-1, -1))

    def group(self, *ks):
        ks = ks or (0,)
        r = []
        for k in ks:
            a, b = self._span(k)
            r.append(None if a < 0 else self.string[a:b])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        n = max(list(self._g) + list(self._n.values()) + [0])
        return tuple(default if self._span(k)[0] < 0 else self.group(k) for k in range(1, n + 1))

    def groupdict(self, default=None):
        return {k: default if self._span(v)[0] < 0 else self.group(v) for k, v in self._n.items()}

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]

    def span(self, k=0):
        return self._span(k)


CATS = {sre_c.CATEGORY_DIGIT: r'\d', sre_c.CATEGORY_NOT_DIGIT: r'\D', sre_c.CATEGORY_WORD: r'\w', sre_c.CATEGORY_NOT_WORD: r'\W', sre_c.CATEGORY_SPACE: r'\s', sre_c.CATEGORY_NOT_SPACE: r'\S'}


def _in(items, c, flags):
    neg, hit = False, False
    for op, av in items:
        if op is sre_c.NEGATE:
            neg = True
        elif hit:
            continue
        elif op is sre_c.LITERAL:
            hit = ch_eq(c, chr(av))
        elif op is sre_c.RANGE:
            t = code(c)
            hit = av[0] <= t <= av[1] if isinstance(t, int) else fork(z3.And(t >= av[0], t <= av[1]))
        elif op is sre_c.CATEGORY:
            p = re.compile(CATS[av], flags & re.ASCII)
            hit = pred((CATS[av], flags & re.ASCII), lambda x: p.match(x))(c)
        else:
            raise S.Unsupported('regular expression %s' % op)
    return hit != neg


def _match(items, k, s, i, g, flags, cont):
    """backtracking matcher; cont(i, groups) -> result or None"""
    if k == len(items):
        return cont(i, g)
    op, av = items[k]
    nxt = lambda j, h: _match(items, k + 1, s, j, h, flags, cont)
    if op in (sre_c.LITERAL, sre_c.NOT_LITERAL, sre_c.IN, sre_c.ANY):
        if i >= len(s):
            return None
        c = s[i]
        if op is sre_c.LITERAL:
            ok = ch_eq(c, chr(av))
        elif op is sre_c.NOT_LITERAL:
            ok = not ch_eq(c, chr(av))
        elif op is sre_c.ANY:
            ok = bool(flags & re.DOTALL) or not ch_eq(c, '\n')
        else:
            ok = _in(av, c, flags)
        return nxt(i + 1, g) if ok else None
    if op is sre_c.AT:
        if av in (sre_c.AT_BEGINNING, sre_c.AT_BEGINNING_STRING):
            ok = i == 0 or (av is sre_c.AT_BEGINNING and flags & re.MULTILINE and ch_eq(s[i - 1], '\n'))
        elif av is sre_c.AT_END:
            ok = i == len(s) or (i == len(s) - 1 and ch_eq(s[i], '\n')) or (flags & re.MULTILINE and ch_eq(s[i], '\n'))
        elif av is sre_c.AT_END_STRING:
            ok = i == len(s)
        elif av in (sre_c.AT_BOUNDARY, sre_c.AT_NON_BOUNDARY):
            w = pred((r'\w', flags & re.ASCII), lambda x: re.match(r'\w', x, flags & re.ASCII))
            ok = ((i > 0 and w(s[i - 1])) != (i < len(s) and w(s[i]))) == (av is sre_c.AT_BOUNDARY)
        else:
            raise S.Unsupported('regular expression %s' % av)
        return nxt(i, g) if ok else None
    if op is sre_c.BRANCH:
        for alt in av[1]:
            r = _match(list(alt), 0, s, i, g, flags, nxt)
            if r is not None:
                return r
        return None
    if op is sre_c.SUBPATTERN:
        num, af, df, sub = av

        def close(j, h):
            if num is not None:
                h = dict(h)
                h[num] = (i, j)
            return nxt(j, h)
        return _match(list(sub), 0, s, i, g, (flags | af) & ~df, close)
    if op in (sre_c.MAX_REPEAT, sre_c.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(n, j, h):
            def more():
                if n < hi:
                    return _match(sub, 0, s, j, h, flags, lambda e, h2: rep(n + 1, e, h2) if (e > j or n < lo) else None)
                return None
            if n < lo:
                return more()
            if op is sre_c.MAX_REPEAT:
                r = more()
                return r if r is not None else nxt(j, h)
            r = nxt(j, h)
            return r if r is not None else more()
        return rep(0, i, g)
    if op in (sre_c.ASSERT, sre_c.ASSERT_NOT) and av[0] > 0:
        r = _match(list(av[1]), 0, s, i, g, flags, lambda j, h: (j, h))
        if op is sre_c.ASSERT:
            return nxt(i, r[1]) if r is not None else None
        return nxt(i, g) if r is None else None
    raise S.Unsupported('regular expression %s' % op)


def run_re(p, how, s, pos=0):
    if p.flags & (re.IGNORECASE | re.LOCALE):
        raise S.Unsupported('regular expression flags')
    t = sre_parse.parse(p.pattern, p.flags)
    items = list(t)

    def done(j, h):
        return (j, h) if how != 'fullmatch' or j == len(s) else None
    for i in range(pos, len(s) + 1) if how == 'search' else [pos]:
        r = _match(items, 0, s, i, {}, p.flags, done)
        if r is not None:
            return Match(s, i, r[0], r[1], p.groupindex)
    return None


def re_sub(p, repl, s, count=0):
    if isinstance(repl, str) and '\\' in repl:
        raise S.Unsupported('template in re.sub')
    out, i, n = [], 0, 0
    while i <= len(s) and (not count or n < count):
        m = run_re(p, 'search', s, i)
        if m is None:
            break
        out.append(s[i:m.start()])
        out.append(repl(m) if callable(repl) else repl)
        n += 1
        if m.end() == m.start():
            if m.start() < len(s):
                out.append(s[m.start()])
            i = m.start() + 1
        else:
            i = m.end()
    out.append(s[i:])
    return ''.join(out)


def call_re(p, attr, args, kw):
    if attr in ('match', 'search', 'fullmatch'):
        return run_re(p, attr, *args, **kw)
    if attr == 'sub':
        return re_sub(p, *args, **kw)
    if attr in ('findall', 'finditer'):
        out, i, s = [], 0, args[0]
        while i <= len(s):
            m = run_re(p, 'search', s, i)
            if m is None:
                break
            out.append(m)
            i = m.end() if m.end() > m.start() else m.end() + 1
        if attr == 'finditer':
            return iter(out)
        return [m.group() if not m.groups() else m.groups() if len(m.groups()) > 1 else m.groups()[0] for m in out]
    if attr == 'split':
        out, i, s = [], 0, args[0]
        for m in call_re(p, 'finditer', (s,), {}):
            out.append(s[i:m.start()])
            out.extend(m.groups())
            i = m.end()
        return out + [s[i:]]
    raise S.Unsupported('re.%s on a symbolic string' % attr)


# -- hooks the rewritten code calls
def _any(args, kw=None):
    return any(has(a) for a in args) or any(has(a) for a in (kw or {}).values())


def h_call(obj, attr, *args, **kw):
    if S.CTX is None or 'chars' not in S.CTX.scratch:
        return getattr(obj, attr)(*args, **kw)
    if obj is str and args and _any(args):
        return h_call(args[0], attr, *args[1:], **kw)
    if isinstance(obj, str):
        if attr in TRANSPARENT:
            return getattr(obj, attr)(*args, **kw)
        if has(obj) or _any(args, kw):
            if attr in METHODS:
                return METHODS[attr](obj, *args, **kw)
            raise S.Unsupported('str.%s on a symbolic string' % attr)
    elif obj is re and _any(args, kw):
        p = re.compile(args[0], kw.pop('flags', 0))
        return call_re(p, attr, args[1:], kw)
    elif isinstance(obj, re.Pattern) and _any(args, kw):
        return call_re(obj, attr, args, kw)
    elif isinstance(obj, dict) and attr == 'get' and has(args[0]):
        for k in obj:
            if isinstance(k, str) and eq(k, args[0]):
                return obj[k]
        return args[1] if len(args) > 1 else None
    return getattr(obj, attr)(*args, **kw)


def h_cmp(op, a, b):
    f = OPS[op]
    if not (has(a) or has(b) or isinstance(b, (list, tuple)) and _any(b)):
        return f(a, b)
    if op in ('Eq', 'NotEq'):
        if isinstance(a, str) and isinstance(b, str):
            r = eq(a, b)
        elif isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            r = False
        else:
            raise S.Unsupported('comparison of symbolic strings')
        return r == (op == 'Eq')
    if op in ('In', 'NotIn'):
        r = find(b, a) >= 0 if isinstance(b, str) else any(isinstance(x, str) and eq(x, a) for x in b)
        return r == (op == 'In')
    if op in ('Is', 'IsNot'):
        return f(a, b)
    for x, y in zip(a, b):
        if not ch_eq(x, y):
            return ch_cmp(x, y, f)
    return f(len(a), len(b))


def h_sub(obj, key):
    if isinstance(obj, dict) and has(key):
        for k in obj:
            if isinstance(k, str) and eq(k, key):
                return obj[k]
        raise KeyError(key)
    return obj[key]


def h_ord(c):
    return code_sym(c) if has(c) else ord(c)


def h_chain(first, *rest):
    for op, f in rest:
        b = f()
        r = h_cmp(op, first, b)
        if not r:
            return r
        first = b
    return r


OPS = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge,
       'Is': operator.is_, 'IsNot': operator.is_not, 'In': lambda a, b: a in b, 'NotIn': lambda a, b: a not in b}


class Rewrite(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super'):
            return ast.copy_location(ast.Call(ast.Name('__symstr_call', ast.Load()), [n.func.value, ast.Constant(n.func.attr)] + n.args, n.keywords), n)
        if isinstance(n.func, ast.Name) and n.func.id == 'ord':
            n.func.id = '__symstr_ord'
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            return ast.copy_location(ast.Call(ast.Name('__symstr_cmp', ast.Load()), [ast.Constant(type(n.ops[0]).__name__), n.left, n.comparators[0]], []), n)
        none = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        rest = [ast.Tuple([ast.Constant(type(o).__name__), ast.Lambda(none, c)], ast.Load()) for o, c in zip(n.ops, n.comparators)]
        return ast.copy_location(ast.Call(ast.Name('__symstr_chain', ast.Load()), [n.left] + rest, []), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            return ast.copy_location(ast.Call(ast.Name('__symstr_sub', ast.Load()), [n.value, n.slice], []), n)
        return n


def instrument(module):
    """rewrite the module-level functions of a module; returns {name: function}"""
    tree = ast.parse(inspect.getsource(module))
    keep = [n for n in tree.body if isinstance(n, ast.FunctionDef)]
    new = ast.Module([Rewrite().visit(n) for n in keep], [])
    ast.fix_missing_locations(new)
    g = module.__dict__
    env = dict(__symstr_call=h_call, __symstr_cmp=h_cmp, __symstr_sub=h_sub, __symstr_ord=h_ord, __symstr_chain=h_chain)
    g.update(env)
    out = {}
    exec(compile(new, module.__file__, 'exec'), g, out)
    g.update(out)
    return out
