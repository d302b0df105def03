"""A numpy look-alike whose arrays may hold symbolic elements.

The module object built here is installed as sys.modules['numpy'] before the
code under test is imported.  Structure (shapes, views, slicing, broadcasting,
memory sharing) is delegated to real numpy object arrays; element arithmetic is
done by symx.sym when an operand is symbolic and by real numpy otherwise.
"""
import sys, types, operator, math, itertools, builtins
import numpy as rnp
from . import sym as S
from .sym import Sym, SymReal, SymInt, SymBool, Unsupported

robj = rnp.dtype(object)
F8 = rnp.dtype('float64')
I8 = rnp.dtype('int64')
B1 = rnp.dtype('bool')


# ------------------------------------------------------------ dtype names
class _TMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return cls._symok(x)
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, sub):
        r = getattr(sub, '_real', sub)
        try:
            return issubclass(r, cls._real)
        except TypeError:
            return False

    def __call__(cls, *a, **k):
        if not a:
            return cls._real()
        x = a[0]
        if isinstance(x, ndarray) and x._a.ndim == 0:
            x = x.item()
        if isinstance(x, Sym):
            return _cast(x, rnp.dtype(cls._real))
        if isinstance(x, (ndarray, list, tuple)):
            return array(x, dtype=cls)
        return cls._real(*a, **k)

    def __eq__(cls, o):
        o = getattr(o, '_real', o)
        return cls._real == o

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _mktype(name, real):
    def ok(x):
        k = {'SymReal': 'float64', 'SymInt': 'int64', 'SymBool': 'bool_'}[type(x).__name__]
        return issubclass(getattr(rnp, k), real)
    d = {'_real': real, '_symok': staticmethod(ok)}
    try:
        d['dtype'] = rnp.dtype(real)
    except TypeError:
        pass
    return _TMeta(name, (), d)


def _D(dt):
    """normalise a dtype specification"""
    if dt is None:
        return None
    if isinstance(dt, rnp.dtype):
        return dt
    r = getattr(dt, '_real', None)
    if r is not None:
        return rnp.dtype(r)
    return rnp.dtype(dt)


def _cast(v, dt):
    """cast one element to dtype kind"""
    k = dt.kind
    if isinstance(v, Sym):
        if k == 'f':
            if isinstance(v, SymReal):
                return v
            return SymReal(S._num(v))
        if k in 'iu':
            if isinstance(v, SymInt):
                return v
            if isinstance(v, SymBool):
                return SymInt(S._i(v))
            z = v.z
            import z3
            return SymInt(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))
        if k == 'b':
            return v if isinstance(v, SymBool) else S.ne(v, 0)
        if k == 'O':
            return v
        if k in 'US':
            return repr(v)
        raise Unsupported('cast of a symbolic value to %s' % dt)
    if k == 'O':
        return v
    if isinstance(v, ndarray):
        if v._a.size != 1:
            raise ValueError('setting an array element with a sequence.')
        return _cast(v._a.reshape(-1)[0], dt)
    if k == 'f':
        return float(v)
    if k in 'iu':
        if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
            return int(rnp.array(v).astype(dt))
        return int(v)
    if k == 'b':
        return bool(v)
    if k in 'US':
        return str(v)
    if k == 'c':
        return complex(v)
    return v


def _cast_arr(a, dt, src=None):
    """object array -> object array with every element cast"""
    if src is not None and src == dt:
        return a
    if dt.kind == 'O':
        return a
    out = rnp.empty(a.shape, dtype=object)
    fo = out.reshape(-1)
    for i, v in enumerate(a.reshape(-1)):
        fo[i] = _cast(v, dt)
    return out


def _scalar(v, dt):
    """the object an element access returns"""
    if isinstance(v, Sym) or dt.kind == 'O':
        return v
    return dt.type(v)


def _has_sym(a):
    for v in a.reshape(-1):
        if isinstance(v, Sym):
            return True
    return False


def _obj(r):
    """real typed array -> object array"""
    if r.dtype == object:
        return r
    return r.astype(object)


def _real(e):
    """E -> real typed array (must be concrete)"""
    a = e._a
    if e._dt.kind != 'O' and _has_sym(a):
        raise Unsupported('symbolic array passed to an unmodelled native operation')
    if e._dt.kind == 'O':
        return a
    return a.astype(e._dt)


class _Mem:
    """stand-in for the buffer object behind ndarray.data"""
    def __init__(self, a):
        self._a = a
        self.nbytes = a.size * 8

    def __len__(self):
        return self._a.size


class _Flags:
    def __init__(self, a):
        self._f = a.flags

    def __getitem__(self, k):
        return self._f[k]

    def __getattr__(self, k):
        return getattr(self._f, k)


class flatiter:
    def __init__(self, base):
        self.base = base
        self._i = 0

    def __len__(self):
        return self.base._a.size

    def __iter__(self):
        return flatiter(self.base)

    def __next__(self):
        if self._i >= self.base._a.size:
            raise StopIteration
        v = self.base._a.flat[self._i]
        self._i += 1
        return _scalar(v, self.base._dt)

    next = __next__

    def copy(self):
        return _mk(ndarray, self.base._a.flatten(), self.base._dt)

    def __getitem__(self, k):
        k = _flatkey(k, self.base._a.size)
        v = self.base._a.flat[k] if not isinstance(k, tuple) else self.base._a.flat[k[0]]
        if isinstance(v, rnp.ndarray) and not _scalar_index(k):
            return self.base._sub(v)
        return _scalar(v, self.base._dt)

    def __setitem__(self, k, val):
        k = _flatkey(k, self.base._a.size)
        va, vdt = _operand(val)
        self.base._a.flat[k] = _cast_arr(va, self.base._dt, vdt).reshape(-1)  if va.ndim else _cast(va.item(), self.base._dt)

    def __array__(self, dtype=None):
        return _real(self.copy())

    def _cmp(self, o, f):
        return f(self.copy(), o)


for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(flatiter, '__%s__' % _n, (lambda f: lambda s, o: f(s.copy(), o))(getattr(operator, _n)))


def _scalar_index(k):
    return isinstance(k, (int, rnp.integer)) and not isinstance(k, bool)


def _key1(k):
    """convert one index component to something a real object array accepts"""
    if isinstance(k, ndarray):
        if k._dt.kind == 'b':
            if k._a.ndim == 0:
                return bool(S.fork(k._a.item()))
            return rnp.array([bool(S.fork(v)) for v in k._a.reshape(-1)], dtype=bool).reshape(k._a.shape)
        if k._dt.kind in 'iu':
            if k._a.ndim == 0:
                return operator.index(k._a.item())
            return rnp.array([operator.index(v) for v in k._a.reshape(-1)], dtype=rnp.intp).reshape(k._a.shape)
        if k._dt.kind == 'O' and k._a.size == 0:
            return rnp.empty(k._a.shape, dtype=rnp.intp)
        if k._dt.kind == 'O':
            return _key1(array(k.tolist()))
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(k, SymInt):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, slice):
        f = lambda v: v.__index__() if isinstance(v, (SymInt, ndarray)) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, (list,)):
        return _key1(array(k)) if len(k) else rnp.empty(0, dtype=rnp.intp)
    if isinstance(k, tuple):
        return _key1(array(k))
    if isinstance(k, Sym):
        raise IndexError('only integers, slices...')
    if isinstance(k, range):
        return list(k)
    return k


def _key(k):
    if isinstance(k, tuple):
        return tuple(_key1(x) for x in k)
    return _key1(k)


def _flatkey(k, n):
    if isinstance(k, tuple):
        if len(k) == 1:
            k = k[0]
        elif len(k) == 0:
            k = Ellipsis
    return _key1(k)


def _mk(cls, a, dt, parent=None):
    o = object.__new__(cls)
    o._a = a
    o._dt = dt
    if cls is not ndarray:
        o.__array_finalize__(parent)
    return o


def _infer(seq_obj):
    """dtype of an object array built from Python data"""
    kinds = set()
    for v in seq_obj.reshape(-1):
        if isinstance(v, SymReal):
            kinds.add('f')
        elif isinstance(v, SymInt):
            kinds.add('i')
        elif isinstance(v, SymBool):
            kinds.add('b')
        elif isinstance(v, (bool, rnp.bool_)):
            kinds.add('b')
        elif isinstance(v, (int, rnp.integer)):
            kinds.add('i')
        elif isinstance(v, (float, rnp.floating)):
            kinds.add('f')
        elif isinstance(v, str):
            kinds.add('U')
        else:
            kinds.add('O')
    if not kinds:
        return F8
    if 'O' in kinds or ('U' in kinds and len(kinds) > 1):
        return robj
    if kinds == {'U'}:
        return rnp.dtype('U%d' % max([len(v) for v in seq_obj.reshape(-1)] + [1]))
    if 'f' in kinds:
        return F8
    if 'i' in kinds:
        return I8
    return B1


def _py(v):
    """element normalisation: numpy scalars to Python objects"""
    if isinstance(v, rnp.generic):
        return v.item()
    return v


def _operand(x):
    """-> (object array, dtype)"""
    if isinstance(x, ndarray):
        return x._a, x._dt
    if isinstance(x, flatiter):
        return x.copy()._a, x.base._dt
    if isinstance(x, Sym):
        a = rnp.empty((), dtype=object)
        a[()] = x
        return a, x.dtype
    if isinstance(x, rnp.generic):
        return _obj(rnp.asarray(x)), x.dtype
    if isinstance(x, rnp.ndarray):
        return _obj(x), x.dtype
    if isinstance(x, bool):
        return _obj(rnp.asarray(x)), B1
    if isinstance(x, (int, float, complex, str, bytes)):
        r = rnp.asarray(x)
        return _obj(r), r.dtype
    if isinstance(x, (list, tuple, range)):
        return _fromseq(x)
    if hasattr(x, '__iter__') and not isinstance(x, (dict, set)) and hasattr(x, '__len__') and hasattr(x, '__getitem__'):
        return _fromseq(list(x))
    a = rnp.empty((), dtype=object)
    a[()] = x
    return a, robj


def _fromseq(x):
    if isinstance(x, range):
        x = list(x)
    x = list(x)
    if not x:
        return rnp.empty((0,), dtype=object), F8
    subs = [_operand(v) if isinstance(v, (ndarray, list, tuple, range, rnp.ndarray, flatiter)) else None for v in x]
    if all(s is not None for s in subs):
        shp = subs[0][0].shape
        if all(s[0].shape == shp for s in subs):
            out = rnp.empty((len(x),) + shp, dtype=object)
            for i, s in enumerate(subs):
                out[i] = s[0]
            dts = [s[1] for s in subs]
            dt = _result(dts)
            return _cast_arr(out, dt), dt
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.')
    if any(s is not None for s in subs):
        # 0-d arrays among scalars
        if all(s is None or s[0].ndim == 0 for s in subs):
            x = [v if s is None else s[0].item() for v, s in zip(x, subs)]
        else:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.')
    out = rnp.empty((len(x),), dtype=object)
    for i, v in enumerate(x):
        out[i] = _py(v)
    dt = _infer(out)
    return _cast_arr(out, dt), dt


def _result(dts):
    dts = list(dts)
    if any(d.kind == 'O' for d in dts):
        return robj
    return rnp.result_type(*dts)


def _wrap(real):
    """result of a real numpy call -> emulated value"""
    if isinstance(real, rnp.ndarray):
        return _mk(ndarray, _obj(real), real.dtype)
    if isinstance(real, tuple) and type(real) is tuple:
        return tuple(_wrap(r) for r in real)
    if isinstance(real, list):
        return [_wrap(r) for r in real]
    return real


def _shapearg(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(x) for x in s)
    if isinstance(s, ndarray):
        return tuple(operator.index(x) for x in s.tolist()) if s._a.ndim else operator.index(s.item())
    if isinstance(s, SymInt):
        return s.__index__()
    return s


class ndarray:
    __slots__ = ('_a', '_dt', '__weakref__')
    __array_priority__ = 0.0
    __array_ufunc__ = None
    __hash__ = None

    def __new__(cls, shape=(), dtype=float, buffer=None, offset=0, strides=None, order=None):
        dt = _D(dtype)
        a = rnp.empty(_shapearg(shape), dtype=object)
        a[...] = _zero(dt)
        if buffer is not None:
            a = buffer._a.reshape(a.shape)
        return _mk(cls, a, dt, None)

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, out_arr, context=None):
        return out_arr if type(out_arr) is type(self) else out_arr.view(type(self))

    def __array__(self, dtype=None):
        r = _real(self)
        return r if dtype is None else r.astype(_D(dtype))

    # -- attributes
    dtype = property(lambda s: s._dt)
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)
    strides = property(lambda s: s._a.strides)
    itemsize = property(lambda s: s._dt.itemsize)
    nbytes = property(lambda s: s._dt.itemsize * s._a.size)
    base = property(lambda s: s._a.base)
    flags = property(lambda s: _Flags(s._a))
    real = property(lambda s: s)

    def _getshape(self):
        return self._a.shape

    def _setshape(self, s):
        self._a = self._a.reshape(_shapearg(s))
    shape = property(_getshape, _setshape)

    def _getdata(self):
        if not (self._a.flags['C_CONTIGUOUS'] or self._a.flags['F_CONTIGUOUS']):
            return _Mem(self._a)
        return _Mem(self._a.reshape(-1))

    def _setdata(self, m):
        b = getattr(m, '_a', None)
        if b is None:
            raise Unsupported('data assignment from a native buffer')
        if not b.flags['C_CONTIGUOUS']:
            raise AttributeError('cannot set single-segment buffer for discontiguous array')
        n = self._a.size
        if b.size < n:
            raise AttributeError('not enough data for array')
        if type(self) is ndarray and self._a.base is None and self._a.size:
            # numpy frees the memory an array owns here: whoever still looks at it reads garbage
            self._a.reshape(-1)[:] = [-123456.789 - i for i in range(n)]
            S.note_freed()
        self._a = b.reshape(-1)[:n].reshape(self._a.shape)
    data = property(_getdata, _setdata)

    def _getflat(self):
        return flatiter(self)

    def _setflat(self, v):
        va, vdt = _operand(v)
        if va.size == 0:
            if self._a.size:
                raise ValueError('could not broadcast')
            return
        self._a.flat = _cast_arr(va, self._dt, vdt).reshape(-1)
    flat = property(_getflat, _setflat)

    def setflags(self, write=None, align=None, uic=None):
        if write is not None:
            self._a.setflags(write=write)

    def _sub(self, a):
        return _mk(type(self), a, self._dt, self)

    @property
    def T(self):
        return self._sub(self._a.T)

    # -- indexing
    def __getitem__(self, k):
        kk = _key(k)
        r = self._a[kk]
        if isinstance(r, rnp.ndarray) and not (self._dt.kind == 'O' and _is_full_scalar(kk, self._a.ndim)):
            return self._sub(r)
        return _scalar(r, self._dt)

    def __setitem__(self, k, v):
        # symbolic boolean mask with a scalar/broadcast value: conditional write
        if isinstance(k, ndarray) and k._dt.kind == 'b' and _has_sym(k._a) and k._a.shape == self._a.shape:
            va, vdt = _operand(v)
            if va.size == 1:
                x = _cast(va.reshape(-1)[0], self._dt)
                if S._isnum(x) and not S._isspecial(x):
                    for i in rnp.ndindex(self._a.shape):
                        self._a[i] = S.ite(k._a[i], x, self._a[i])
                    return
        kk = _key(k)
        va, vdt = _operand(v)
        if va.ndim == 0:
            self._a[kk] = _cast(va.item(), self._dt)
        else:
            self._a[kk] = _cast_arr(va, self._dt, vdt)

    def __delitem__(self, k):
        raise ValueError('cannot delete array elements')

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError('len() of unsized object')
        return len(self._a)

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self._a)):
            r = self._a[i]
            if isinstance(r, rnp.ndarray) and self._a.ndim > 1:
                yield self._sub(r)
            else:
                yield _scalar(r, self._dt)

    def __contains__(self, x):
        return bool((_asbase(self) == x).any())

    def __bool__(self):
        if self._a.size == 1:
            return bool(self._a.reshape(-1)[0])
        if self._a.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def _one(self):
        if self._a.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self._a.reshape(-1)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self._a.size != 1 or self._dt.kind not in 'iu' or self._a.ndim:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return operator.index(self._one())

    def __complex__(self):
        return complex(self._one())

    def item(self, *a):
        if a:
            return self._a.item(*a)
        if self._a.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self._a.reshape(-1)[0]

    def tolist(self):
        return self._a.tolist()

    def __repr__(self):
        return self._str(rnp.array_repr)

    def __str__(self):
        return self._str(rnp.array_str)

    def _str(self, f):
        if _has_sym(self._a):
            return f(rnp.zeros(self._a.shape, dtype=self._dt))
        return f(_real(self))

    def __format__(self, spec):
        if self._a.ndim == 0:
            return format(_scalar(self._a.item(), self._dt), spec)
        if spec:
            raise TypeError('unsupported format string passed to numpy.ndarray.__format__')
        return str(self)

    # -- structure
    def view(self, dtype=None, type=None):
        if isinstance(dtype, builtins.type) and issubclass(dtype, ndarray):
            return _mk(dtype, self._a.view(), self._dt, self)
        if type is not None:
            return _mk(type, self._a.view(), self._dt, self)
        if dtype is None:
            return self._sub(self._a.view())
        if _D(dtype) == self._dt:
            return self._sub(self._a.view())
        raise Unsupported('view with another dtype')

    def copy(self, order='C'):
        return self._sub(self._a.copy(order))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        import copy
        a = self._a.copy()
        if self._dt.kind == 'O':
            for i in rnp.ndindex(a.shape):
                a[i] = copy.deepcopy(a[i], memo)
        return _mk(ndarray, a, self._dt, self)

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = _D(dtype)
        if dt == self._dt and not copy:
            return self
        a = _cast_arr(self._a, dt, self._dt)
        if a is self._a:
            a = a.copy()
        if dt.kind == 'O' and self._dt.kind != 'O':
            pass
        return _mk(type(self) if subok else ndarray, a, dt, self)

    def reshape(self, *shape, order='C'):
        if len(shape) == 1:
            shape = shape[0]
        return self._sub(self._a.reshape(_shapearg(shape), order=order))

    def resize(self, *shape, **kw):
        raise Unsupported('ndarray.resize')

    def ravel(self, order='C'):
        return self._sub(self._a.ravel(order))

    def flatten(self, order='C'):
        return self._sub(self._a.flatten(order))

    def transpose(self, *axes):
        return self._sub(self._a.transpose(*axes))

    def swapaxes(self, a, b):
        return self._sub(self._a.swapaxes(a, b))

    def squeeze(self, axis=None):
        return self._sub(self._a.squeeze(axis))

    def repeat(self, repeats, axis=None):
        return self._sub(self._a.repeat(_plain(repeats), axis))

    def take(self, indices, axis=None, out=None, mode='raise'):
        return take(self, indices, axis)

    def put(self, ind, v, mode='raise'):
        put(self, ind, v)

    def fill(self, v):
        self._a[...] = _cast(_py(v), self._dt)

    def compress(self, cond, axis=None):
        return self._sub(self._a.compress(_key1(asarray(cond)), axis))

    def nonzero(self):
        return nonzero(self)

    def diagonal(self, *a):
        return self._sub(self._a.diagonal(*a))

    def tobytes(self, *a):
        return _real(self).tobytes()

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return _reduce('sum', self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return _reduce('prod', self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False):
        return _reduce('any', self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False):
        return _reduce('all', self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False):
        return _reduce('max', self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return _reduce('min', self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return mean(self, axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumsum(self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return cumprod(self, axis)

    def argmin(self, axis=None, out=None):
        return argmin(self, axis)

    def argmax(self, axis=None, out=None):
        return argmax(self, axis)

    def dot(self, b):
        return dot(self, b)

    def clip(self, min=None, max=None, out=None):
        return clip(self, min, max)

    def sort(self, axis=-1, kind=None, order=None):
        self._a[...] = sort(_asbase(self), axis)._a

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis)

    def round(self, decimals=0):
        return _wrap(_real(self).round(decimals))

    def std(self, *a, **k):
        return _wrap(_real(self).std(*a, **k))

    def var(self, *a, **k):
        return _wrap(_real(self).var(*a, **k))

    def trace(self, *a):
        return np_sum(self.diagonal())

    # -- pickling
    def __reduce__(self):
        return (_reconstruct, (type(self), (0,), b'b'),
                (1, self._a.shape, self._dt, False, list(self._a.reshape(-1))))

    def __reduce_ex__(self, protocol):
        return self.__reduce__()

    def __setstate__(self, state):
        _, shape, dt, fortran, data = state
        a = rnp.empty(len(data), dtype=object)
        for i, v in enumerate(data):
            a[i] = v
        self._a = a.reshape(shape)
        self._dt = dt


def _is_full_scalar(k, nd):
    if not isinstance(k, tuple):
        k = (k,)
    return len(k) == nd and all(_scalar_index(x) for x in k)


def _reconstruct(cls, shape, dtype):
    return ndarray.__new__(cls, shape, F8)


def _asbase(x):
    return x if type(x) is ndarray else x.view(ndarray)


S._arr_type = (ndarray,)


def _zero(dt):
    return {'f': 0.0, 'i': 0, 'u': 0, 'b': False, 'O': None, 'U': '', 'S': b'', 'c': 0j}.get(dt.kind, 0)


# ---------------------------------------------------------- ufuncs
def _outer_type(args):
    best, bp = None, None
    for x in args:
        if isinstance(x, ndarray):
            p = x.__array_priority__
            if best is None or p > bp:
                best, bp = x, p
    return best


_UF_BOOL = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or',
            'logical_not', 'logical_xor', 'isnan', 'isinf', 'isfinite', 'signbit'}
_UF_FLOAT = {'divide', 'true_divide', 'sqrt', 'exp', 'log', 'log1p', 'expm1', 'reciprocal_', 'sin', 'cos', 'tan', 'tanh', 'log2', 'log10', 'exp2'}


def _log10(x):
    if not is_symv(x):
        return float(rnp.log10(x))
    raise Unsupported('log10')


def is_symv(x):
    return isinstance(x, Sym)


_SYMF = {
    'add': S.add, 'subtract': S.sub, 'multiply': S.mul, 'divide': S.div, 'true_divide': S.div,
    'floor_divide': S.floordiv, 'remainder': S.mod, 'mod': S.mod, 'power': S.power, 'negative': S.neg,
    'positive': lambda a: a, 'absolute': S.absolute, 'abs': S.absolute, 'fabs': S.absolute, 'sign': S.sign,
    'sqrt': S.sqrt, 'square': lambda a: S.mul(a, a), 'exp': S.exp, 'log': S.log, 'log1p': S.log1p,
    'expm1': S.expm1, 'maximum': S.maximum, 'minimum': S.minimum, 'fmax': S.maximum, 'fmin': S.minimum,
    'equal': S.eq, 'not_equal': S.ne, 'less': S.lt, 'less_equal': S.le, 'greater': S.gt, 'greater_equal': S.ge,
    'logical_and': S.b_and, 'logical_or': S.b_or, 'logical_xor': S.b_xor, 'logical_not': S.b_not,
    'isnan': lambda a: False if is_symv(a) else a != a,
    'isinf': lambda a: False if is_symv(a) else a in (math.inf, -math.inf),
    'isfinite': lambda a: True if is_symv(a) else not S._isspecial(a),
    'reciprocal': lambda a: S.div(1.0, a),
    'logaddexp': lambda a, b: S.log(S.add(S.exp(a), S.exp(b))),
    'deg2rad': lambda a: S.mul(a, math.pi / 180), 'log2': lambda a: S.div(S.log(a), math.log(2)), 'log10': lambda a: S.div(S.log(a), math.log(10)),
    'heaviside': lambda a, b: S.ite(S.lt(a, 0), 0.0, S.ite(S.eq(a, 0), b, 1.0)),
}


def _bitwise(name):
    f = {'bitwise_and': S.b_and, 'bitwise_or': S.b_or, 'bitwise_xor': S.b_xor, 'invert': S.b_not}[name]

    def g(*a):
        for x in a:
            if not isinstance(x, (bool, SymBool)):
                raise Unsupported('bitwise operation on symbolic integers')
        return f(*a)
    return g


for _n in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'):
    _SYMF[_n] = _bitwise(_n)


class _UFunc:
    def __init__(self, name):
        self.__name__ = name
        self.real = getattr(rnp, name)
        self.nin = self.real.nin
        self.nout = self.real.nout
        self.identity = self.real.identity

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, order=None, subok=True):
        name = self.__name__
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        if isinstance(out, tuple):
            out = out[0]
        if where is not True:
            raise Unsupported('ufunc where=')
        for x in args:
            if not isinstance(x, ndarray) and not isinstance(x, (Sym, list, tuple, rnp.generic, int, float, str, flatiter, range, rnp.ndarray, complex)) \
                    and not hasattr(x, '__len__') and not hasattr(x, 'dtype'):
                if name in ('equal', 'not_equal'):
                    pass
        ops = [_operand(x) for x in args]
        anysym = any(_has_sym(a) for a, _ in ops)
        dts = [d for _, d in ops]
        scal = [a.ndim == 0 and not isinstance(x, ndarray) for (a, _), x in zip(ops, args)]
        if not anysym and not any(d.kind == 'O' for d in dts):
            reals = [(a.astype(d) if not sc else x) for (a, d), sc, x in zip(ops, scal, args)]
            res = self.real(*reals)
            if isinstance(res, tuple):
                return tuple(_wrap(r) for r in res)
            if isinstance(res, rnp.ndarray):
                ra, rdt = _obj(res), res.dtype
            else:
                ra, rdt = _obj(rnp.asarray(res)), rnp.asarray(res).dtype
        elif not anysym:
            # object arrays without symbolic content
            try:
                res = self.real(*[a for a, _ in ops])
            except TypeError:
                if name not in ('equal', 'not_equal'):
                    raise
                b = rnp.broadcast(*[a for a, _ in ops])
                res = rnp.empty(b.shape, dtype=object)
                res.reshape(-1)[:] = [(x == y) is True if name == 'equal' else (x != y) is True for x, y in b]
            ra = _obj(rnp.asarray(res))
            rdt = B1 if name in _UF_BOOL else rnp.asarray(res).dtype
            if name in _UF_BOOL:
                ra = _cast_arr(ra, B1)
        else:
            f = _SYMF.get(name)
            if f is None:
                raise Unsupported('ufunc %s on symbolic values' % name)
            bc = rnp.broadcast(*[a for a, _ in ops]) if len(ops) > 1 else None
            shape = bc.shape if bc is not None else ops[0][0].shape
            ra = rnp.empty(shape, dtype=object)
            fl = ra.reshape(-1)
            if bc is None:
                it = ((v,) for v in ops[0][0].reshape(-1))
            else:
                it = bc
            rdt = self._rdtype(dts, scal)
            for i, vs in enumerate(it):
                if any(isinstance(v, Sym) for v in vs):
                    fl[i] = _cast(f(*vs), rdt)
                else:
                    if any(not S._isnum(v) for v in vs):
                        fl[i] = _cast(f(*vs), rdt)
                    else:
                        with rnp.errstate(all='ignore'):
                            fl[i] = _cast(_py(self.real(*[_typed(v, d) for v, d in zip(vs, dts)])), rdt)
        if dtype is not None:
            rdt2 = _D(dtype)
            ra, rdt = _cast_arr(ra, rdt2, rdt), rdt2
        if out is not None:
            out._a[...] = _cast_arr(ra, out._dt, rdt)
            return out if type(out) is ndarray else out.__array_wrap__(out)
        o = _outer_type(args)
        if ra.ndim == 0 and all(a.ndim == 0 for a, _ in ops) and (o is None or True):
            if o is None or type(o) is ndarray or o._a.ndim == 0:
                return _scalar(ra.item(), rdt)
        r = _mk(ndarray, ra, rdt)
        if o is not None and type(o) is not ndarray:
            return o.__array_wrap__(r)
        return r

    def _rdtype(self, dts, scal):
        n = self.__name__
        if n in _UF_BOOL:
            return B1
        if any(d.kind == 'O' for d in dts):
            return robj
        if n in _UF_FLOAT:
            return F8
        if n in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert') and all(d.kind == 'b' for d in dts):
            return B1
        k = {d.kind for d in dts}
        if 'f' in k:
            return F8
        if 'i' in k:
            return I8
        if n == 'add' and k == {'b'}:
            return B1
        if n == 'multiply' and k == {'b'}:
            return B1
        return I8 if k == {'b'} else _result(dts)

    def reduce(self, a, axis=0, **kw):
        m = {'add': 'sum', 'multiply': 'prod', 'logical_and': 'all', 'logical_or': 'any', 'maximum': 'max', 'minimum': 'min'}[self.__name__]
        return _reduce(m, asarray(a), axis, False)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def accumulate(self, a, axis=0):
        return {'add': cumsum, 'multiply': cumprod}[self.__name__](a, axis)

    def at(self, *a):
        raise Unsupported('ufunc.at')

    def __repr__(self):
        return '<ufunc %r>' % self.__name__


def _typed(v, d):
    if d.kind in 'OUS':
        return v
    return d.type(v)


_UFUNCS = {n: _UFunc(n) for n in dir(rnp) if isinstance(getattr(rnp, n), rnp.ufunc)}
_boolmul = _UFUNCS['multiply']

# bool*bool and bool+bool are logical operations
_om, _oa = _SYMF['multiply'], _SYMF['add']


def _mulf(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return S.b_and(a, b)
    return _om(a, b)


def _addf(a, b):
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return S.b_or(a, b)
    return _oa(a, b)


_SYMF['multiply'] = _mulf
_SYMF['add'] = _addf


def _defops():
    tab = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'true_divide', 'floordiv': 'floor_divide',
           'mod': 'remainder', 'pow': 'power', 'and': 'bitwise_and', 'or': 'bitwise_or', 'xor': 'bitwise_xor',
           'lshift': 'left_shift', 'rshift': 'right_shift'}
    for op, uf in tab.items():
        u = _UFUNCS[uf]

        def f(self, o, u=u):
            if not _arraylike(o):
                return NotImplemented
            return u(self, o)

        def rf(self, o, u=u):
            if not _arraylike(o):
                return NotImplemented
            return u(o, self)

        def inf(self, o, u=u):
            r = u(_asbase(self), o)
            ra, rdt = _operand(r)
            if self._dt.kind in 'iub' and rdt.kind == 'f':
                raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'" % u.__name__)
            if ra.shape != self._a.shape:
                if rnp.broadcast_shapes(ra.shape, self._a.shape) != self._a.shape:
                    raise ValueError('non-broadcastable output operand')
            self._a[...] = _cast_arr(ra, self._dt, rdt)
            return self
        setattr(ndarray, '__%s__' % op, f)
        setattr(ndarray, '__r%s__' % op, rf)
        setattr(ndarray, '__i%s__' % op, inf)
    for op, uf in {'eq': 'equal', 'ne': 'not_equal', 'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal'}.items():
        def f(self, o, u=_UFUNCS[uf], op=op):
            if o is None and op in ('eq', 'ne'):
                return _wrap(rnp.full(self._a.shape, op == 'ne'))
            if isinstance(o, str) and self._dt.kind not in 'US' and op in ('eq', 'ne'):
                return _wrap(rnp.full(self._a.shape, op == 'ne'))
            if not _arraylike(o):
                if op in ('eq', 'ne') and self._dt.kind != 'O':
                    return NotImplemented
            if op in ('eq', 'ne'):
                oa = _operand(o)[0]
                try:
                    rnp.broadcast_shapes(oa.shape, self._a.shape)
                except ValueError:
                    raise ValueError('operands could not be broadcast together')
            return u(self, o)
        setattr(ndarray, '__%s__' % op, f)
    ndarray.__neg__ = lambda s: _UFUNCS['negative'](s)
    ndarray.__pos__ = lambda s: _UFUNCS['positive'](s)
    ndarray.__abs__ = lambda s: _UFUNCS['absolute'](s)
    ndarray.__invert__ = lambda s: _UFUNCS['invert'](s)
    ndarray.__matmul__ = lambda s, o: dot(s, o)
    ndarray.__rmatmul__ = lambda s, o: dot(o, s)
    ndarray.__divmod__ = lambda s, o: (s // o, s % o)


def _arraylike(o):
    return isinstance(o, (ndarray, Sym, int, float, complex, str, bool, list, tuple, rnp.generic, flatiter, rnp.ndarray)) or \
        (o is not None and S._isnum(o))


_defops()


# ---------------------------------------------------------- reductions
def _reduce(kind, x, axis, keepdims):
    x = asarray(x) if not isinstance(x, ndarray) else x
    a = x._a
    if not _has_sym(a) and x._dt.kind != 'O':
        r = getattr(rnp, {'max': 'amax', 'min': 'amin'}.get(kind, kind))(_real(x), axis=_axis(axis), keepdims=keepdims)
        r = _wrap(r)
        if isinstance(r, ndarray) and type(x) is not ndarray:
            return x.__array_wrap__(r)
        return r
    fs = {'sum': (_oa, 0.0), 'prod': (_om, 1.0), 'any': (lambda p, q: S.b_or(S.truth(p), S.truth(q)), False),
          'all': (lambda p, q: S.b_and(S.truth(p), S.truth(q)), True), 'max': (S.maximum, None), 'min': (S.minimum, None)}
    f, ident = fs[kind]
    if kind in ('any', 'all'):
        rdt = B1
    elif x._dt.kind == 'b' and kind in ('sum', 'prod'):
        rdt = I8
    else:
        rdt = x._dt

    def red(vals):
        vals = list(vals)
        if not vals:
            if ident is None:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % kind)
            return _cast(ident, rdt)
        if kind in ('any', 'all'):
            r = vals[0] if x._dt.kind == 'b' else S.truth(vals[0])
        else:
            r = _cast(vals[0], rdt) if x._dt.kind == 'b' else vals[0]
        for v in vals[1:]:
            if x._dt.kind == 'b' and kind in ('sum', 'prod'):
                v = _cast(v, rdt)
            r = f(r, v)
        return _py(r)
    if axis is None:
        r = red(a.reshape(-1))
        if keepdims:
            o = rnp.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return _mk(ndarray, o, rdt)
        return _scalar(r, rdt)
    ax = _axis(axis)
    if isinstance(ax, tuple):
        if len(ax) == 1:
            ax = ax[0]
        else:
            raise Unsupported('multi-axis reduction')
    m = rnp.moveaxis(a, ax, -1)
    out = rnp.empty(m.shape[:-1], dtype=object)
    for i in rnp.ndindex(out.shape):
        out[i] = red(m[i])
    if keepdims:
        out = rnp.expand_dims(out, ax)
    if out.ndim == 0:
        return _scalar(out.item(), rdt)
    r = _mk(ndarray, out, rdt)
    if type(x) is not ndarray:
        return x.__array_wrap__(r)
    return r


def _axis(ax):
    if isinstance(ax, (tuple, list)):
        return tuple(operator.index(i) for i in ax)
    return None if ax is None else operator.index(ax)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, types.GeneratorType):
        return sum(a)
    return asanyarray(a).sum(axis, keepdims=keepdims)


def prod(a, axis=None, dtype=None, out=None, keepdims=False):
    return asanyarray(a).prod(axis, keepdims=keepdims)


def np_any(a, axis=None, out=None, keepdims=False):
    return asanyarray(a).any(axis, keepdims=keepdims)


def np_all(a, axis=None, out=None, keepdims=False):
    return asanyarray(a).all(axis, keepdims=keepdims)


def amax(a, axis=None, out=None, keepdims=False, **k):
    return asanyarray(a).max(axis, keepdims=keepdims)


def amin(a, axis=None, out=None, keepdims=False, **k):
    return asanyarray(a).min(axis, keepdims=keepdims)


def mean(a, axis=None, dtype=None, keepdims=False):
    a = asanyarray(a)
    n = a.size if axis is None else a.shape[axis]
    return a.sum(axis, keepdims=keepdims) / float(n)


def _cum(a, axis, f):
    a = asanyarray(a)
    if not _has_sym(a._a):
        return _wrap((rnp.cumsum if f is _oa else rnp.cumprod)(_real(a), axis=axis))
    if axis is None:
        m = a._a.reshape(1, -1)
    else:
        m = rnp.moveaxis(a._a, axis, -1)
    out = rnp.empty(m.shape, dtype=object)
    rdt = I8 if a._dt.kind == 'b' else a._dt
    for i in rnp.ndindex(m.shape[:-1]):
        acc = None
        for j in range(m.shape[-1]):
            v = _cast(m[i + (j,)], rdt)
            acc = v if acc is None else f(acc, v)
            out[i + (j,)] = acc
    out = out.reshape(-1) if axis is None else rnp.moveaxis(out, -1, axis)
    return _mk(ndarray, out, rdt)


def cumsum(a, axis=None, dtype=None, out=None):
    return _cum(a, axis, _oa)


def cumprod(a, axis=None, dtype=None, out=None):
    return _cum(a, axis, _om)


def _arg(a, axis, better):
    a = asanyarray(a)
    if not _has_sym(a._a):
        return _wrap((rnp.argmin if better is S.lt else rnp.argmax)(_real(a), axis=axis))
    if axis is not None and a.ndim != 1:
        raise Unsupported('argmin with axis')
    vals = a._a.reshape(-1)
    best = 0
    for i in range(1, len(vals)):
        b = vals[best]
        if S._isspecial(b) and b != b:
            return rnp.int64(best)
        v = vals[i]
        if (S._isspecial(v) and v != v) or S.fork(better(v, b)):
            best = i
    return rnp.int64(best)


def argmin(a, axis=None, out=None):
    return _arg(a, axis, S.lt)


def argmax(a, axis=None, out=None):
    return _arg(a, axis, S.gt)


def dot(a, b, out=None):
    a0, b0 = a, b
    a, b = asanyarray(a), asanyarray(b)
    if not _has_sym(a._a) and not _has_sym(b._a):
        return _wrap(rnp.dot(_real(a), _real(b)))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError('shapes not aligned')
        r = (_asbase(a) * _asbase(b)).sum(-1)
        return r
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('shapes not aligned')
    if a.ndim == 1:
        return (_asbase(a).reshape(-1, 1) * _asbase(b)).sum(-2)
    out = rnp.empty(a.shape[:-1] + b.shape[:-2] + (b.shape[-1],), dtype=object)
    dt = _result([a._dt, b._dt])
    for i in rnp.ndindex(a.shape[:-1]):
        for j in rnp.ndindex(b.shape[:-2]):
            for k in range(b.shape[-1]):
                acc = 0
                for l in range(a.shape[-1]):
                    acc = S.add(acc, _om(a._a[i + (l,)], b._a[j + (l, k)])) if (is_symv(acc) or True) else acc
                out[i + j + (k,)] = acc
    return _mk(ndarray, out, dt)


def einsum(spec, *ops, **kw):
    ops = [asarray(o) for o in ops]
    if not any(_has_sym(o._a) for o in ops):
        return _wrap(rnp.einsum(spec, *[_real(o) for o in ops]))
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, outl = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        outl = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match the operand dimensions')
        for c, n in zip(s, o.shape):
            if c in dims and dims[c] != n:
                raise ValueError('operands could not be broadcast together')
            dims[c] = n
    summed = [c for c in dims if c not in outl]
    out = rnp.empty(tuple(dims[c] for c in outl), dtype=object)
    for oi in rnp.ndindex(out.shape):
        env = dict(zip(outl, oi))
        acc = None
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = None
            for s, o in zip(ins, ops):
                v = o._a[tuple(env[c] for c in s)]
                t = v if t is None else _om(t, v)
            acc = t if acc is None else _oa(acc, t)
        out[oi] = 0.0 if acc is None else acc
    dt = _result([o._dt for o in ops])
    if out.ndim == 0:
        return _scalar(out.item(), dt)
    return _mk(ndarray, out, dt)


# ---------------------------------------------------------- creation
def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    dt = _D(dtype)
    if isinstance(x, ndarray):
        cls = type(x) if subok else ndarray
        if dt is not None and dt != x._dt:
            r = _mk(cls, _cast_arr(x._a, dt, x._dt).reshape(x._a.shape), dt, x)
        elif copy:
            r = _mk(cls, x._a.copy('C' if order in (None, 'C', 'K') else order), x._dt, x)
        elif order == 'C' and not x._a.flags['C_CONTIGUOUS']:
            r = _mk(cls, x._a.copy('C'), x._dt, x)
        elif cls is type(x):
            r = x
        else:
            r = x.view(cls)
    else:
        if hasattr(x, '__array__') and not isinstance(x, (rnp.ndarray, rnp.generic, flatiter)):
            x = x.__array__()
        if dt is not None and dt.kind == 'O' and isinstance(x, (list, tuple)):
            r0 = rnp.array([_py(v) for v in x], dtype=object)
            r = _mk(ndarray, r0, robj)
        else:
            a, adt = _operand(x)
            if isinstance(x, rnp.ndarray) and a is x:
                a = a.copy()
            if dt is not None and dt != adt:
                a = _cast_arr(a, dt, adt)
                adt = dt
                if dt.kind == 'U' and dt.itemsize == 0:
                    adt = rnp.dtype('U%d' % max([len(v) for v in a.reshape(-1)] + [1]))
            r = _mk(ndarray, a, adt)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def asarray(x, dtype=None, order=None, **k):
    return array(x, dtype, copy=False, order=order)


def asanyarray(x, dtype=None, order=None, **k):
    return array(x, dtype, copy=False, order=order, subok=True)


def ascontiguousarray(x, dtype=None):
    return array(x, dtype, copy=False, order='C', ndmin=1)


def require(a, dtype=None, requirements=None, like=None):
    req = {str(x).upper()[0] for x in (requirements or [])}
    subok = 'E' not in req
    arr = array(a, dtype=dtype, order='C' if 'C' in req else None, copy=False, subok=subok)
    if 'W' in req and not arr._a.flags.writeable:
        arr = arr.copy()
    if 'O' in req and arr._a.base is not None:
        arr = arr.copy()
    return arr


def copy(a, order='K', subok=False):
    return array(a, order=order, subok=subok, copy=True)


def _atleast(n):
    def f(*xs):
        res = []
        for x in xs:
            x = asanyarray(x)
            if x.ndim < n:
                x = x.reshape({1: (1,), 2: (1, -1) if x.ndim else (1, 1)}[n])
            res.append(x)
        return res[0] if len(res) == 1 else res
    return f


atleast_1d = _atleast(1)
atleast_2d = _atleast(2)
_garbage = itertools.count()


def empty(shape, dtype=float, order='C', **k):
    dt = _D(dtype)
    a = rnp.empty(_shapearg(shape), dtype=object)
    # uninitialised memory: a value nothing may depend on
    a[...] = 6.0e-310 if dt.kind == 'f' else _zero(dt)
    return _mk(ndarray, a, dt)


def full(shape, v, dtype=None, order='C', **k):
    va, vdt = _operand(v)
    dt = _D(dtype) or vdt
    a = rnp.empty(_shapearg(shape), dtype=object)
    a[...] = _cast_arr(va, dt, vdt)
    return _mk(ndarray, a, dt)


def zeros(shape, dtype=float, order='C', **k):
    return full(shape, 0, _D(dtype))


def ones(shape, dtype=float, order='C', **k):
    return full(shape, 1, _D(dtype))


def _like(fn):
    def f(a, *args, dtype=None, subok=True, **k):
        a = asanyarray(a)
        r = fn(a.shape, *args, dtype=_D(dtype) or a._dt)
        if subok and type(a) is not ndarray:
            return _mk(type(a), r._a, r._dt, a)
        return r
    return f


zeros_like, ones_like, empty_like = _like(zeros), _like(ones), _like(empty)


def full_like(a, v, dtype=None, **k):
    a = asanyarray(a)
    return full(a.shape, v, _D(dtype) or a._dt)


def _plain(x):
    """convert arguments of a native call to native values (must be concrete)"""
    if isinstance(x, ndarray):
        return _real(x)
    if isinstance(x, flatiter):
        return _real(x.copy())
    if isinstance(x, SymInt):
        return x.__index__()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, Sym):
        raise Unsupported('symbolic scalar passed to an unmodelled native operation')
    if type(x) in (list, tuple):
        return type(x)(_plain(v) for v in x)
    if type(x) is dict:
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, slice):
        return slice(_plain(x.start), _plain(x.stop), _plain(x.step))
    if isinstance(x, type) and hasattr(x, '_real'):
        return x._real
    return x


# ---------------------------------------------------------- structural
def _struct(name, seq_first=False):
    """functions that only move elements: run on the object arrays"""
    rf = getattr(rnp, name)

    def f(*args, **kw):
        dts = []

        def conv(x):
            if isinstance(x, (ndarray, flatiter)):
                a, d = _operand(x)
                dts.append(d)
                return a
            return x
        args = list(args)
        if seq_first:
            seq = args[0]
            if isinstance(seq, types.GeneratorType):
                raise TypeError('arrays to stack must be passed as a "sequence" type such as list or tuple.')
            if isinstance(seq, ndarray):
                seq = list(seq)
            items = [asanyarray(s) for s in seq]
            if not items:
                raise ValueError('need at least one array to concatenate')
            dt = _result([i._dt for i in items])
            args[0] = [_cast_arr(i._a, dt, i._dt) for i in items]
            dts.append(dt)
            args[1:] = [_plain(x) for x in args[1:]]
        else:
            args[0] = conv(args[0]) if isinstance(args[0], (ndarray, flatiter)) else conv(asarray(args[0]))
            args[1:] = [_plain(x) for x in args[1:]]
        kw = {k: _plain(v) for k, v in kw.items()}
        r = rf(*args, **kw)
        if isinstance(r, (list, tuple)):
            return type(r)(_mk(ndarray, x, dts[0]) for x in r)
        return _mk(ndarray, r, dts[0])
    f.__name__ = name
    return f


_STRUCT = {n: _struct(n) for n in ('rollaxis', 'moveaxis', 'swapaxes', 'transpose', 'squeeze', 'expand_dims', 'broadcast_to',
                                   'repeat', 'tile', 'roll', 'flip', 'fliplr', 'flipud', 'ravel', 'reshape', 'diag', 'diagonal',
                                   'split', 'array_split', 'delete', 'triu', 'tril')}
_STRUCT.update({n: _struct(n, True) for n in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'dstack', 'row_stack')})
_conc = _STRUCT['concatenate']


def concatenate(seq, axis=0, out=None, **k):
    if axis is None:
        return _conc([asarray(s).ravel() for s in seq])
    return _conc(seq, axis)


def append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        a, v = a.ravel(), v.ravel()
        axis = 0
    return concatenate([a, v], axis)


def insert(a, idx, v, axis=None):
    a = asarray(a)
    va, vd = _operand(v)
    return _mk(ndarray, rnp.insert(a._a, _plain(idx), _cast_arr(va, a._dt, vd), axis), a._dt)


def take(a, indices, axis=None, out=None, mode='raise'):
    a = asanyarray(a)
    idx = _key1(asarray(indices)) if not isinstance(indices, int) else indices
    r = rnp.take(a._a, idx, axis)
    return a._sub(r) if isinstance(r, rnp.ndarray) else _scalar(r, a._dt)


def put(a, ind, v, mode='raise'):
    if not isinstance(a, ndarray):
        raise TypeError('argument 1 must be numpy.ndarray, not ' + type(a).__name__)
    idx = _key1(asarray(ind))
    if isinstance(idx, rnp.ndarray) and idx.dtype == bool:
        idx = idx.astype(int)
    if isinstance(idx, rnp.ndarray) and idx.dtype == object:
        raise TypeError('Cannot cast array data')
    if isinstance(idx, rnp.ndarray) and idx.size == 0:
        return
    va, vdt = _operand(v)
    va = _cast_arr(va, a._dt, vdt)
    if a._a.flags['C_CONTIGUOUS']:
        a._a.put(idx, va)
    else:
        vals = va.reshape(-1)
        for j, i in enumerate(rnp.asarray(idx).reshape(-1)):
            if vals.size:
                a._a.flat[i] = vals[j % vals.size]


def putmask(a, mask, v):
    a._a[_key1(asarray(mask))] = asarray(v)._a


def copyto(dst, src, **k):
    if k:
        raise Unsupported('copyto options')
    sa, sd = _operand(src)
    dst._a[...] = _cast_arr(sa, dst._dt, sd)


def nonzero(a):
    a = asarray(a)
    m = rnp.array([bool(S.fork(S.truth(v))) for v in a._a.reshape(-1)], dtype=bool).reshape(a._a.shape)
    return tuple(_wrap(i) for i in m.nonzero())


def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


def argwhere(a):
    return array([list(i) for i in zip(*[x.tolist() for x in nonzero(a)])], dtype=int)


def count_nonzero(a, axis=None, **k):
    a = asarray(a)
    if axis is not None:
        return (a != 0).sum(axis)
    return (a != 0).sum()


def where(c, x=None, y=None):
    if x is None and y is None:
        return nonzero(c)
    ops = [_operand(v) for v in (c, x, y)]
    sc = [o[0].ndim == 0 and not isinstance(v, ndarray) for o, v in zip(ops, (c, x, y))]
    if not any(_has_sym(o[0]) for o in ops):
        return _wrap(rnp.where(*[(o[0].astype(o[1]) if not s else v) for o, s, v in zip(ops, sc, (c, x, y))]))
    bc = rnp.broadcast(*[o[0] for o in ops])
    out = rnp.empty(bc.shape, dtype=object)
    fl = out.reshape(-1)
    dt = _result([ops[1][1], ops[2][1]])
    if bc.size == 1:
        # a scalar choice: decide it, so that what follows has no case distinctions inside
        p, q, r = next(iter(bc))
        fl[0] = _cast(q if S.fork(S.truth(p)) else r, dt)
        return _mk(ndarray, out, dt)
    for i, (p, q, r) in enumerate(bc):
        fl[i] = _cast(S.ite(S.truth(p), q, r), dt)
    return _mk(ndarray, out, dt)


def clip(a, a_min=None, a_max=None, out=None, **k):
    r = asanyarray(a)
    scalar = not isinstance(a, (ndarray, list, tuple))
    if a_min is not None:
        r = _UFUNCS['maximum'](r, a_min)
    if a_max is not None:
        r = _UFUNCS['minimum'](r, a_max)
    if out is not None:
        ra, rd = _operand(r)
        out._a[...] = _cast_arr(ra, out._dt, rd)
        return out
    if scalar and isinstance(r, ndarray) and r.ndim == 0:
        return _scalar(r._a.item(), r._dt)
    return r


def _symsort(vals):
    """insertion sort with forking comparisons (stable)"""
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and S.fork(S.lt(v[0], out[i - 1][0])):
            i -= 1
        out.insert(i, v)
    return out


def sort(a, axis=-1, kind=None, order=None):
    a = asarray(a)
    if not _has_sym(a._a):
        return _wrap(rnp.sort(_real(a), axis))
    if a.ndim != 1 and axis is not None:
        raise Unsupported('sort of a symbolic matrix')
    vals = [v for v, in _symsort([(v,) for v in a._a.reshape(-1)])]
    o = rnp.empty(len(vals), dtype=object)
    o[:] = vals
    return _mk(ndarray, o, a._dt)


def argsort(a, axis=-1, kind=None, order=None):
    a = asarray(a)
    if not _has_sym(a._a):
        return _wrap(rnp.argsort(_real(a), axis))
    if a.ndim != 1:
        raise Unsupported('argsort of a symbolic matrix')
    return array([i for _, i in _symsort([(v, i) for i, v in enumerate(a._a)])], dtype=int)


def _uniq(a):
    """sorted unique of a 1-d emulated array"""
    s = sort(a.ravel())
    out = []
    for v in s._a:
        if out and S.fork(S.eq(out[-1], v)):
            continue
        out.append(v)
    o = rnp.empty(len(out), dtype=object)
    o[:] = out
    return _mk(ndarray, o, a._dt)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarray(a)
    if not _has_sym(a._a):
        return _wrap(rnp.unique(_real(a), return_index, return_inverse, return_counts, axis))
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported('unique with options')
    return _uniq(a)


def union1d(a, b):
    a, b = asarray(a), asarray(b)
    if not _has_sym(a._a) and not _has_sym(b._a):
        return _wrap(rnp.union1d(_real(a), _real(b)))
    return _uniq(concatenate([a.ravel(), b.ravel()]))


def in1d(a, b, assume_unique=False, invert=False, **k):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    if not _has_sym(a._a) and not _has_sym(b._a):
        return _wrap(rnp.in1d(_real(a), _real(b), assume_unique, invert))
    out = rnp.empty(a.size, dtype=object)
    for i, v in enumerate(a._a):
        r = False
        for w in b._a:
            r = S.b_or(r, S.eq(v, w))
        out[i] = S.b_not(r) if invert else r
    return _mk(ndarray, out, B1)


def isin(a, b, assume_unique=False, invert=False, **k):
    a = asarray(a)
    return in1d(a, b, assume_unique, invert).reshape(a.shape)


def setdiff1d(a, b, assume_unique=False):
    a, b = asarray(a), asarray(b)
    if not _has_sym(a._a) and not _has_sym(b._a):
        return _wrap(rnp.setdiff1d(_real(a), _real(b), assume_unique))
    if assume_unique:
        a = a.ravel()
    else:
        a, b = unique(a), unique(b)
    return a[in1d(a, b, True, True)]


def intersect1d(a, b, assume_unique=False, return_indices=False):
    a, b = asarray(a), asarray(b)
    if not _has_sym(a._a) and not _has_sym(b._a):
        return _wrap(rnp.intersect1d(_real(a), _real(b), assume_unique, return_indices))
    if return_indices:
        raise Unsupported('intersect1d return_indices')
    if not assume_unique:
        a, b = unique(a), unique(b)
    else:
        a, b = a.ravel(), b.ravel()
    # numpy: sort the concatenation, keep elements equal to their successor
    s = sort(concatenate([a, b]))._a
    out = [s[i] for i in range(len(s) - 1) if S.fork(S.eq(s[i], s[i + 1]))]
    o = rnp.empty(len(out), dtype=object)
    o[:] = out
    return _mk(ndarray, o, _result([a._dt, b._dt]))


def searchsorted(a, v, side='left', sorter=None):
    a0, v0 = asarray(a), asarray(v)
    if not _has_sym(a0._a) and not _has_sym(v0._a):
        return _wrap(rnp.searchsorted(_real(a0), _real(v0) if v0.ndim else _plain(v), side, _plain(sorter)))
    cmp = S.lt if side == 'left' else S.le

    def one(x):
        n = 0
        for w in a0._a:
            if S.fork(cmp(w, x)):
                n += 1
            else:
                break
        return n
    if v0.ndim == 0:
        return rnp.int64(one(v0.item()))
    return array([one(x) for x in v0._a], dtype=int)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(isclose(a, b, rtol, atol, equal_nan))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    aa, ad = _operand(a)
    ba, bd = _operand(b)
    if not _has_sym(aa) and not _has_sym(ba):
        return _wrap(rnp.isclose(_plain(a), _plain(b), rtol, atol, equal_nan))
    bc = rnp.broadcast(aa, ba)
    out = rnp.empty(bc.shape, dtype=object)
    fl = out.reshape(-1)
    for i, (x, y) in enumerate(bc):
        if S._isspecial(x) or S._isspecial(y):
            fl[i] = (not is_symv(x) and not is_symv(y) and x == y)
        else:
            fl[i] = S.le(S.absolute(S.sub(x, y)), S.add(atol, S.mul(rtol, S.absolute(y))))
    return _mk(ndarray, out, B1) if out.ndim else out.item()


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return bool((_asbase(a) == _asbase(b)).all())


def array_equiv(a, b):
    return bool((asarray(a) == asarray(b)).all())


def apply_along_axis(f, axis, arr, *args, **kw):
    arr = asanyarray(arr)
    m = rnp.moveaxis(arr._a, axis, -1)
    if rnp.prod(m.shape[:-1]) == 0:
        raise ValueError('Cannot apply_along_axis when any iteration dimensions are 0')
    res = [asarray(f(_mk(ndarray, m[i], arr._dt), *args, **kw)) for i in rnp.ndindex(m.shape[:-1])]
    r = _STRUCT['stack'](res)
    return r.reshape(m.shape[:-1] + res[0].shape)


class vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.f, self.otypes = pyfunc, otypes

    def __call__(self, *args):
        arrs = [asarray(a) for a in args]
        if len(arrs) == 1:
            a = arrs[0]._a
            shape = a.shape
            it = [(_scalar(v, arrs[0]._dt),) for v in a.reshape(-1)]
        else:
            bc = rnp.broadcast(*[a._a for a in arrs])
            shape = bc.shape
            it = [tuple(_scalar(v, x._dt) for v, x in zip(vs, arrs)) for vs in bc]
        if not it and self.otypes is None:
            raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        out = rnp.empty(len(it), dtype=object)
        for i, vs in enumerate(it):
            out[i] = self.f(*vs)
        ot = self.otypes
        if ot is None:
            dt = _infer(out)
        else:
            t = ot[0]
            dt = robj if t in (list, dict, object, 'O', tuple) else _D(t)
        if dt.kind != 'O':
            out = _cast_arr(out, dt)
        out = out.reshape(shape)
        return _mk(ndarray, out, dt) if shape != () else _wrap0(out, dt)


def _wrap0(o, dt):
    return _mk(ndarray, o, dt)


def frompyfunc(f, nin, nout):
    return vectorize(f, otypes=[object])


class _R:
    def __init__(self, real):
        self.r = real

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, (ndarray, Sym, list)) for x in ks) and not any(isinstance(x, str) for x in ks):
            parts = []
            for x in ks:
                if isinstance(x, slice):
                    parts.append(_wrap(rnp.r_[_plain(x)]))
                else:
                    parts.append(atleast_1d(x))
            if self.r is rnp.r_:
                return concatenate(parts)
            return _STRUCT['column_stack'](parts)
        return _wrap(self.r[tuple(_plain(x) for x in ks)])


class _Errstate(rnp.errstate):
    pass


# ---------------------------------------------------------- random
class _Random(types.ModuleType):
    """Every draw is a fresh unconstrained value of the documented range."""

    def _draw(self, size, lo=None, hi=None):
        def one():
            c = S.CTX
            n = c.rnd_n
            c.rnd_n += 1
            v = c.new_input('real', 'rnd%d' % n)
            c.assume(v != 0)     # a drawn number is almost never exactly zero
            if lo is not None:
                c.assume((v >= S._num(lo)))
            if hi is not None:
                c.assume((v < S._num(hi)))
            return SymReal(v)
        if size is None:
            return one()
        shape = _shapearg(size)
        o = rnp.empty(shape, dtype=object)
        fl = o.reshape(-1)
        for i in range(fl.size):
            fl[i] = one()
        return _mk(ndarray, o, F8)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._draw(size)

    def standard_normal(self, size=None):
        return self._draw(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(size, low, high)

    def random_sample(self, size=None):
        return self._draw(size, 0.0, 1.0)

    random = sample = ranf = random_sample

    def rand(self, *s):
        return self._draw(s or None, 0.0, 1.0)

    def randn(self, *s):
        return self._draw(s or None)

    def seed(self, *a):
        pass

    def permutation(self, x):
        raise Unsupported('np.random.permutation')

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low

        def one():
            c = S.CTX
            v = c.new_input('int', 'rnd%d' % c.rnd_n)
            c.rnd_n += 1
            import z3
            c.assume(z3.And(v >= low, v < high))
            return SymInt(v)
        if size is None:
            return one()
        o = rnp.empty(_shapearg(size), dtype=object)
        fl = o.reshape(-1)
        for i in range(fl.size):
            fl[i] = one()
        return _mk(ndarray, o, I8)


class _ConcreteRandom(types.ModuleType):
    """used when running the repository's own tests through the emulator"""
    def __getattr__(self, n):
        f = getattr(rnp.random, n)
        return lambda *a, **k: _wrap(f(*_plain(a), **_plain(k)))


# ---------------------------------------------------------- the module
class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in _UFUNCS:
            return _UFUNCS[name]
        try:
            r = getattr(rnp, name)
        except AttributeError:
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        if isinstance(r, type) and issubclass(r, rnp.generic):
            v = _TYPES.setdefault(name, _mktype(name, r))
            return v
        if isinstance(r, type):
            return r
        if callable(r):
            return _fallback(name, r)
        return r


def _fallback(name, r):
    def f(*a, **k):
        return _wrap(r(*_plain(tuple(a)), **_plain(dict(k))))
    f.__name__ = name
    return f


_TYPES = {}


def build(concrete_random=False):
    m = _Module('numpy')
    m.__path__ = []
    m.__version__ = rnp.__version__
    me = sys.modules[__name__]
    for n in ('ndarray', 'flatiter', 'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'require', 'copy', 'atleast_1d',
              'atleast_2d', 'empty', 'full', 'zeros', 'ones', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'concatenate',
              'append', 'insert', 'take', 'put', 'putmask', 'copyto', 'nonzero', 'flatnonzero', 'argwhere', 'count_nonzero', 'where',
              'clip', 'sort', 'argsort', 'unique', 'union1d', 'in1d', 'isin', 'setdiff1d', 'intersect1d', 'searchsorted', 'allclose',
              'isclose', 'array_equal', 'array_equiv', 'apply_along_axis', 'vectorize', 'frompyfunc', 'prod',
              'amax', 'amin', 'mean', 'cumsum', 'cumprod', 'argmin', 'argmax', 'dot', 'einsum'):
        setattr(m, n, getattr(me, n))
    m.max, m.min = amax, amin
    m.sum, m.any, m.all = np_sum, np_any, np_all
    m.product, m.alltrue, m.sometrue = prod, np_all, np_any
    m.average = mean
    for n, f in _STRUCT.items():
        if n not in m.__dict__:
            setattr(m, n, f)
    for n in ('add', 'subtract', 'multiply'):
        setattr(m, n, _UFUNCS[n])
    m.abs = _UFUNCS['absolute']
    m.matmul = lambda a, b: dot(a, b)
    m.inner = lambda a, b: dot(asarray(a), asarray(b).T)
    m.vdot = lambda a, b: dot(asarray(a).ravel(), asarray(b).ravel())
    m.outer = lambda a, b: asarray(a).reshape(-1, 1) * asarray(b).reshape(1, -1)
    m.diff = lambda a, n=1, axis=-1: (lambda x: x[1:] - x[:-1])(asarray(a))
    m.size = lambda a, axis=None: asarray(a).size if axis is None else asarray(a).shape[axis]
    m.shape = lambda a: asarray(a).shape
    m.ndim = lambda a: asarray(a).ndim
    m.isscalar = lambda x: isinstance(x, Sym) or rnp.isscalar(x)
    m.iterable = rnp.iterable
    m.may_share_memory = m.shares_memory = lambda a, b, **k: bool(rnp.may_share_memory(a._a, b._a) if m is None else rnp.shares_memory(a._a, b._a)) if isinstance(a, ndarray) and isinstance(b, ndarray) else False
    m.ndindex = rnp.ndindex
    m.ndenumerate = lambda a: ((i, _scalar(asarray(a)._a[i], asarray(a)._dt)) for i in rnp.ndindex(asarray(a).shape))
    m.arange = _fallback('arange', rnp.arange)
    m.issubdtype = lambda a, b: rnp.issubdtype(_D(a) if not isinstance(a, type) or hasattr(a, '_real') else a, getattr(b, '_real', b))
    m.result_type = lambda *a: _result([x if isinstance(x, rnp.dtype) else (_D(x) if isinstance(x, type) else asarray(x)._dt) for x in a])
    m.dtype = rnp.dtype
    m.finfo = lambda t: rnp.finfo(_D(t))
    m.iinfo = lambda t: rnp.iinfo(_D(t))
    m.r_, m.c_ = _R(rnp.r_), _R(rnp.c_)
    m.errstate = rnp.errstate
    m.seterr, m.geterr = rnp.seterr, rnp.geterr
    m.get_printoptions, m.set_printoptions = rnp.get_printoptions, rnp.set_printoptions
    m.broadcast_arrays = lambda *a: [_mk(ndarray, x, asarray(o)._dt) for x, o in zip(rnp.broadcast_arrays(*[asarray(o)._a for o in a]), a)]
    m.array_str = str
    m.array2string = lambda a, *x, **k: str(a)
    for n in ('nan', 'inf', 'pi', 'e', 'newaxis', 'NaN', 'Inf', 'NAN', 'PINF', 'NINF'):
        setattr(m, n, getattr(rnp, n))
    m.bool_ = m.bool8 = _mktype('bool_', rnp.bool_)
    rnd = (_ConcreteRandom if concrete_random else _Random)('numpy.random')
    m.random = rnd
    lib = types.ModuleType('numpy.lib')
    fb = types.ModuleType('numpy.lib.function_base')
    fb.vectorize = vectorize
    fb.__getattr__ = lambda n: getattr(m, n)
    lib.__getattr__ = lambda n: getattr(m, n)
    numeric = types.ModuleType('numpy.core.numeric')
    numeric.__getattr__ = lambda n: getattr(m, n)
    lib.function_base = fb
    lib.__path__ = []
    m.lib = lib
    la = types.ModuleType('numpy.linalg')
    la.__path__ = []
    lal = types.ModuleType('numpy.linalg.linalg')
    la.linalg = lal
    for t in (la, lal):
        t.LinAlgError = rnp.linalg.LinAlgError
        t.__getattr__ = lambda n: (_norm if n == 'norm' else _fallback(n, getattr(rnp.linalg, n)))
    m.linalg = la
    core = types.ModuleType('numpy.core')
    core.__path__ = []
    core.__getattr__ = lambda n: getattr(m, n)
    core.numeric = numeric
    m.core = core
    testing = types.ModuleType('numpy.testing')
    testing.__getattr__ = lambda n: _fallback(n, getattr(rnp.testing, n)) if not isinstance(getattr(rnp.testing, n), type) else getattr(rnp.testing, n)
    m.testing = testing
    mods = {'numpy': m, 'numpy.random': rnd, 'numpy.lib': lib, 'numpy.lib.function_base': fb, 'numpy.linalg': la,
            'numpy.linalg.linalg': lal, 'numpy.core': core, 'numpy.core.numeric': numeric, 'numpy.testing': testing}
    return m, mods


def _norm(x, ord=None, axis=None):
    x = asarray(x)
    if not _has_sym(x._a):
        return _wrap(rnp.linalg.norm(_real(x), ord, axis))
    if ord not in (None, 2) or axis is not None:
        raise Unsupported('norm')
    return S.sqrt((x * x).sum())
