"""Replacements for builtins, numpy, numba and math used while the verified
code runs on symbolic values.  On concrete arguments they defer to the real
ones."""
import builtins
import functools
import math as _math
import numbers
import types
import numpy as _np
from . import terms as T
from .engine import cur, CUR, Unsupported, PathAbort
from .sym import (Picked, element, built, simp_int, count, same_arrays, Sym, SymBool, SymBase, SArr, SymRange, SymArray, SymField,
                  SymRecord, SymEnum, SymSeq, lift, blift, mkreal, mkint, s_sqrt, s_log, s_fn,
                  s_arctanh, s_arcsin, s_floor, s_int, clip_scalar, seqsum, nan,
                  inf, divide, lazy, has_sym)
from .cplx import CSym, CArr, fft as _fftm
from . import loops

# ------------------------------------------------------------- builtins


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if cls is vfloat:
            return isinstance(x, builtins.float) or (isinstance(x, Sym) and x.t.sort != 'I')
        return type.__instancecheck__(cls, x)


class vfloat(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            x = x.ravel()[0]
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return mkreal(lift(x))
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if cls is vint:
            return isinstance(x, builtins.int) or (isinstance(x, Sym) and x.t.sort == 'I')
        return type.__instancecheck__(cls, x)


class vint(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            x = x.ravel()[0]
        if isinstance(x, Sym):
            return s_int(x)
        if isinstance(x, SymBool):
            return builtins.int(bool(x))
        return builtins.int(x, *a)


def v_isinstance(x, cls):
    if isinstance(x, (SymArray, SymField)):
        cs = cls if isinstance(cls, tuple) else (cls,)
        if _np.ndarray in cs:
            return True
    if isinstance(x, SymRecord):
        cs = cls if isinstance(cls, tuple) else (cls,)
        if _np.void in cs:
            return True
    if isinstance(x, SymBool):
        cs = cls if isinstance(cls, tuple) else (cls,)
        if bool in cs or _np.bool_ in cs:
            return True
    return isinstance(x, cls)


def v_range(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return SymRange(T.ZERO, lift(a[0]))
        if len(a) == 2 or (len(a) == 3 and a[2] == 1):
            return SymRange(lift(a[0]), lift(a[1]))
        raise Unsupported('range with a symbolic step')
    return builtins.range(*[builtins.int(x) if isinstance(x, vfloat) and x == builtins.int(x)
                            and isinstance(x, builtins.float) and False else x for x in a])


def v_len(x):
    if isinstance(x, (SymArray, SymField, SymSeq)):
        return x.shape[0]
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):
        n = f(x)
        if isinstance(n, Sym):
            return n
    return builtins.len(x)


def v_enumerate(x, start=0):
    if isinstance(x, (SymArray, SymRange, SymSeq)):
        return SymEnum(x)
    return builtins.enumerate(x, start)


def v_zip(*a):
    seqs = [x for x in a if isinstance(x, (SymArray, SymSeq))]
    if not seqs:
        return builtins.zip(*a)
    n = seqs[0].dims[0]
    if any(not isinstance(x, (SymArray, SymSeq)) or x.dims[0] is not n for x in a):
        raise Unsupported('zip of sequences of different symbolic lengths')
    return SymSeq(mkint(n), lambda k: tuple(x[k] for x in a))


def v_print(*a, **k):
    pass


def vc_mod(a, b):
    if isinstance(a, str):
        try:
            return a % b
        except (TypeError, ValueError, Unsupported):
            bb = b if isinstance(b, tuple) else (b,)
            return a + ' ' + ' '.join(repr(x) for x in bb)
    return a % b


def vc_enter(name):
    e = CUR[0]
    if e is not None:
        e.functions.add(name)


def v_round(x, *a):
    if isinstance(x, Sym):
        raise Unsupported('round')
    return builtins.round(x, *a)


BUILTINS = {
    'float': vfloat, 'int': vint, 'isinstance': v_isinstance, 'range': v_range,
    'len': v_len, 'enumerate': v_enumerate, 'zip': v_zip, 'print': v_print, 'round': v_round,
    '__vc_mod__': vc_mod, '__vc_enter__': vc_enter, '__vc_loop__': loops.make_loop, '__vc_while__': loops.WhileLoop,
}

# ---------------------------------------------------------------- numba

CONTRACTS = {}


def njit(*args, **kw):
    if len(args) == 1 and callable(args[0]) and not kw:
        return _wrap(args[0])
    return _wrap


jit = njit


def _wrap(f):
    @functools.wraps(f)
    def w(*a, **k):
        e = CUR[0]
        if e is None:
            return f(*a, **k)
        e.njit_depth += 1
        try:
            return f(*a, **k)
        finally:
            e.njit_depth -= 1
    w.py_func = f
    return w


def vectorize(*args, **kw):
    def dec(f):
        g = _wrap(f)

        @functools.wraps(f)
        def w(*a):
            if len(a) == 1:
                return emap(g, a[0])
            bs = _np.broadcast_arrays(*[_np.asarray(x, dtype=object) for x in a])
            r = _np.empty(bs[0].shape, dtype=object)
            for i in _np.ndindex(*r.shape):
                r[i] = g(*[b[i] for b in bs])
            return r[()] if r.ndim == 0 else r.view(SArr)
        return w
    if len(args) == 1 and callable(args[0]) and not kw:
        return dec(args[0])
    return dec


numba = types.ModuleType('numba')
numba.njit = njit
numba.jit = njit
numba.vectorize = vectorize
numba.prange = v_range
_core = types.ModuleType('numba.core')
_errors = types.ModuleType('numba.core.errors')


class NumbaExperimentalFeatureWarning(Warning):
    pass


_errors.NumbaExperimentalFeatureWarning = NumbaExperimentalFeatureWarning
_errors.NumbaWarning = NumbaExperimentalFeatureWarning
_core.errors = _errors
numba.core = _core

# ---------------------------------------------------------------- numpy


def emap(f, x):
    """apply f to a scalar or to each element"""
    if isinstance(x, (SymArray, SymField)):
        return lazy(f, x)
    if isinstance(x, Picked):
        return x.map(f)
    if isinstance(x, SymBase) or not hasattr(x, '__len__'):
        return f(x)
    a = _np.asarray(x)
    if a.ndim == 0:
        return f(a[()])
    r = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        r[i] = f(a[i])
    return r.view(SArr)


def _num(x):
    if isinstance(x, SymBool):
        return mkreal(lift(x))
    return x


def _el(name, symf, concf):
    def g(x):
        x = _num(x)
        if isinstance(x, Sym):
            return symf(x)
        if isinstance(x, (complex, _np.complexfloating)):
            return getattr(_np, name)(x)
        return concf(builtins.float(x))

    def f(x, out=None, where=True, dtype=None):
        if where is not True:
            raise Unsupported('where=')
        r = emap(g, x)
        if out is not None:
            out[...] = r
            return out
        return r
    f.__name__ = name
    return f


def _conc(name):
    uf = getattr(_np, name)

    def g(x):
        with _np.errstate(all='ignore'):
            return builtins.float(uf(x))
    return g


def _conc_exp(x):
    with _np.errstate(all='ignore'):
        r = builtins.float(_np.exp(x))
    if (r == 0 or _np.isinf(r)) and _np.isfinite(x):
        # not the real number: stays a term
        return s_fn('exp', Sym(lift(x)))
    return r


def _s_tan(x):
    return s_fn('sin', x) / s_fn('cos', x)


def _abs1(x):
    return abs(_num(x))


def _unsup(name):
    def f(*a, **k):
        raise Unsupported('numpy.' + name)
    return f


def _isfinite(x):
    if isinstance(x, SymBase):
        return True
    if x is None:
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    return bool(_np.isfinite(x))


def _isnan(x):
    if isinstance(x, SymBase):
        return False
    if x is None:
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return bool(_np.isnan(x))


def _isinf(x):
    if isinstance(x, SymBase):
        return False
    return bool(_np.isinf(x))


def odtype(dt):
    """structured dtype with every numeric field made 'O'; else None"""
    if dt is None:
        return None
    if isinstance(dt, (list, tuple)) or (isinstance(dt, _np.dtype) and dt.names):
        d = _np.dtype(dt) if not isinstance(dt, _np.dtype) else dt
        out = []
        for n in d.names:
            fd = d.fields[n][0]
            base, shape = (fd.subdtype if fd.subdtype else (fd, ()))
            if base.names:
                base = odtype(base)
            elif base.kind in 'fiub':
                base = _np.dtype('O')
            out.append((n, base, shape) if shape else (n, base))
        return _np.dtype(out)
    return None


def _fill(a, v):
    if a.dtype.names:
        for n in a.dtype.names:
            _fill(a[n], v)
    elif a.dtype == object:
        a[...] = v
    return a


def _simple(dt):
    """normalised kind of a non-structured dtype"""
    if dt is None:
        return 'f'
    if dt is vfloat or dt is builtins.float:
        return 'f'
    if dt is vint or dt is builtins.int:
        return 'i'
    return _np.dtype(dt).kind


def _shape(s):
    if isinstance(s, _np.ndarray) and s.ndim == 1:
        s = tuple(s)
    if isinstance(s, (tuple, list)):
        return tuple(_shape1(x) for x in s)
    return _shape1(s)


def _shape1(x):
    if isinstance(x, Sym):
        if x.t.op == 'const':
            return builtins.int(x.t.args[0])
        return x
    return x if isinstance(x, builtins.int) else x.__index__()


def _symshape(s):
    if isinstance(s, tuple):
        return any(isinstance(x, Sym) for x in s)
    return isinstance(s, Sym)


_symcount = [0]


def _new(shape, dtype, v, order=None):
    shape = _shape(shape)
    sd = odtype(dtype)
    if _symshape(shape):
        dims = shape if isinstance(shape, tuple) else (shape,)
        a = SymArray('arr!%d' % len(cur().dec), [lift(x) for x in dims],
                     sd.names if sd is not None else [None])
        for f in a.state:
            a.state[f] = ('const', lift(v) if lift(v) is not None else T.ZERO)
        return a
    if sd is not None:
        a = _np.zeros(shape, dtype=sd)
        _fill(a, v)
        return a.view(SArr)
    k = _simple(dtype)
    if k in 'USVOM' or (k == 'c' and CUR[0] is None):
        a = _np.zeros(shape, dtype=dtype)
        return a
    if k == 'b':
        v = bool(v)
    elif k in 'iu':
        v = builtins.int(v)
    a = _np.empty(shape, dtype=object)
    a[...] = v
    return a.view(SArr)


def zeros(shape, dtype=None, order='C'):
    return _new(shape, dtype, 0.0)


def empty(shape, dtype=None, order='C'):
    return _new(shape, dtype, 0.0)


def ones(shape, dtype=None, order='C'):
    return _new(shape, dtype, 1.0)


def full(shape, v, dtype=None, order='C'):
    return _new(shape, dtype, v)


def _like(v):
    def f(a, dtype=None, **k):
        if isinstance(a, (SymArray, SymField)):
            return _new(a.shape, dtype, v)
        a = a if isinstance(a, _np.ndarray) else array(a)
        if a.dtype.names:
            r = _np.zeros(a.shape, dtype=a.dtype)
            _fill(r, v)
            return r.view(SArr)
        return _new(a.shape, dtype, v)
    return f


def full_like(a, v, dtype=None, **k):
    return _new(a.shape, dtype, v)


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if isinstance(x, (SymArray, SymField)):
        return x.copy() if copy else x
    sd = odtype(dtype)
    if sd is not None:
        r = _np.array(x, dtype=sd, ndmin=ndmin).view(SArr)
        return r
    if isinstance(x, _np.ndarray):
        if x.dtype.names:
            return (x.copy() if copy else x)
        if x.dtype == object and isinstance(x, SArr):
            r = x.copy() if copy else x
            if copy is None and order == 'C' and not x.flags.c_contiguous:
                r = x.copy()
            k = _simple(dtype) if dtype is not None else 'f'
            if k in 'iu':
                r = emap(vint, x)
            while r.ndim < ndmin:
                r = r[None]
            return r
        if x.dtype.kind in 'USbiu' and (dtype is None or _simple(dtype) in 'USbiu'):
            return _np.array(x, copy=copy, ndmin=ndmin)
        if x.dtype.kind == 'c' or (dtype is not None and _simple(dtype) == 'c'):
            return _np.array(x, dtype=dtype)
        return SArr(_np.array(x, ndmin=ndmin))
    if isinstance(x, SymBase):
        r = _np.empty((), dtype=object)
        r[()] = x
        r = r.view(SArr)
    else:
        if not has_sym(x):
            y = _np.array(x)
            if y.dtype.kind in 'USc' or (dtype is not None and _simple(dtype) == 'c'):
                return _np.array(x, dtype=dtype)
            if y.dtype.kind in 'biu' and (dtype is None or _simple(dtype) in 'biu'):
                return _np.array(x, dtype=dtype, ndmin=ndmin)
            if y.dtype != object:
                y = y.astype(dtype if dtype not in (None, vfloat) else float)
            r = SArr(y)
        else:
            r = SArr(_np.array(x, dtype=object))
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, **k):
    return array(x, dtype=dtype, copy=None)


def ascontiguousarray(x, dtype=None):
    return array(x, dtype=dtype, copy=None, order='C', ndmin=1)


def atleast_1d(x):
    return array(x, copy=None, ndmin=1)


def _cmpf(op):
    def f(a, b):
        return op(a, b)
    return f


class Selected(object):
    """indices of the true elements of a symbolic array: only their number"""

    def __init__(self, c):
        self.selected = c.copy()
        t = count(c)
        self.size = mkint(t)
        self.shape = (self.size,)


def where(c, *ab):
    if isinstance(c, (SymArray, SymField)):
        if not ab and isinstance(c, SymArray) and None in c.state:
            s = Selected(c)
            return (s,) * len(c.dims)
        raise Unsupported('where on a symbolic array')
    if not ab:
        a = _np.asarray(c)
        if a.dtype == object:
            a = _np.array([bool(x) for x in a.ravel()], dtype=bool).reshape(a.shape)
        return _np.nonzero(a)
    a, b = ab
    c, a, b = _np.broadcast_arrays(_np.asarray(c), _np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
    r = _np.empty(c.shape, dtype=object)
    for i in _np.ndindex(*c.shape):
        x, y = lift(a[i]), lift(b[i])
        if isinstance(c[i], SymBool) and x is not None and y is not None:
            r[i] = mkreal(T.ite(c[i].t, x, y))
        else:
            r[i] = a[i] if c[i] else b[i]
    return r.view(SArr) if r.ndim else r[()]


def nsum(x, axis=None, **k):
    if isinstance(x, (SymArray, SymField, CArr)) or isinstance(x, Picked) and axis is None and not k:
        return x.sum()
    a = _np.asarray(x)
    if axis is None:
        return seqsum(a.ravel())
    r = _np.add.reduce(a.astype(object), axis=axis)
    return r.view(SArr) if isinstance(r, _np.ndarray) else r


def nmean(x, axis=None, **k):
    a = _np.asarray(x)
    if axis is None:
        return seqsum(a.ravel()) / a.size
    return nsum(x, axis) / a.shape[axis]


def nall(x, axis=None, **k):
    if isinstance(x, SymBase):
        return SymBool(blift(x))
    if isinstance(x, (SymArray, SymField)):
        return x.all()
    return wrapb(T.band(*[blift(y) for y in _np.asarray(x, dtype=object).ravel()]))


def nany(x, axis=None, **k):
    if isinstance(x, SymBase):
        return SymBool(blift(x))
    if isinstance(x, (SymArray, SymField)):
        return x.any()
    return wrapb(T.bor(*[blift(y) for y in _np.asarray(x, dtype=object).ravel()]))


def wrapb(t):
    if t is T.TRUE:
        return True
    if t is T.FALSE:
        return False
    return SymBool(t)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
    return nall([abs(x - y) <= atol + rtol * abs(y) for x, y in zip(a.ravel(), b.ravel())])


def clip(x, lo, hi, out=None):
    r = emap(lambda y: clip_scalar(y, lo, hi), x)
    if out is not None:
        out[slice(None) if isinstance(out, SymArray) else Ellipsis] = r
        return out
    return r


def dot(a, b):
    a = _np.asarray(a, dtype=object)
    b = _np.asarray(b, dtype=object)
    r = _np.dot(a, b)
    return r.view(SArr) if isinstance(r, _np.ndarray) and r.ndim else (r[()] if isinstance(r, _np.ndarray) else r)


def det(m):
    m = _np.asarray(m, dtype=object)
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    r = 0.0
    for j in range(n):
        sub = _np.delete(_np.delete(m, 0, 0), j, 1)
        r = r + (-1) ** j * m[0, j] * det(sub)
    return r


def inv(m):
    m = _np.asarray(m, dtype=object)
    n = m.shape[0]
    d = det(m)
    if d == 0:
        raise _np.linalg.LinAlgError('Singular matrix')
    r = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1.0
            else:
                c = det(_np.delete(_np.delete(m, j, 0), i, 1))
            r[i, j] = (-1) ** (i + j) * c / d
    return r.view(SArr)


def diag(m, k=0):
    r = _np.diag(_np.asarray(m, dtype=object), k)
    if r.ndim == 2:
        r = r.copy()
        for i in _np.ndindex(*r.shape):
            if r[i] is None or (not isinstance(r[i], SymBase) and r[i] == 0):
                r[i] = 0.0
    return r.view(SArr)


def eye(n, m=None, k=0, dtype=None, **kw):
    return SArr(_np.eye(n, m, k))


def arange(*a, dtype=None, **k):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1:
            return symarange(T.ZERO, lift(a[0]))
        raise Unsupported('arange')
    r = _np.arange(*a)
    if dtype is not None and _simple(dtype) in 'f':
        r = r.astype(float)
    return r if r.dtype.kind in 'iu' else SArr(r)


def symarange(lo, hi):
    a = SymArray('arange', [hi], [None])
    a.state[None] = ('fun', lambda i: i)
    return a


def linspace(*a, **k):
    if any(isinstance(x, Sym) for x in a):
        lo, hi, n = a[:3]
        return SArr([lo + (hi - lo) * i / (n - 1) for i in range(n)])
    return SArr(_np.linspace(*a, **k))


def nmax(x, *a, **k):
    return array(x).max(*a, **k)


def nmin(x, *a, **k):
    return array(x).min(*a, **k)


def median(x, *a, **k):
    if isinstance(x, Picked) and not a and not k:
        return x.median()
    if has_sym(x):
        if a or k:
            raise Unsupported('median')
        # insertion sort, splitting on each comparison
        v = []
        for y in array(x).ravel():
            i = 0
            while i < len(v) and bool(v[i] <= y):
                i += 1
            v.insert(i, y)
        n = len(v)
        return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    return builtins.float(_np.median(_np.asarray(x, dtype=float)))


def arctan2(y, x, **k):
    if isinstance(y, Sym) or isinstance(x, Sym):
        return mkreal(T.fn('arctan2', lift(y), lift(x)))
    if hasattr(y, '__len__'):
        y, x = _np.broadcast_arrays(_np.asarray(y, dtype=object), _np.asarray(x, dtype=object))
        return SArr([arctan2(p, q) for p, q in zip(y.ravel(), x.ravel())]).reshape(y.shape)
    return builtins.float(_np.arctan2(y, x))


def _bin2(f):
    def g(a, b, **k):
        if not hasattr(a, '__len__') and not hasattr(b, '__len__'):
            return f(a, b)
        a, b = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        r = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(*a.shape):
            r[i] = f(a[i], b[i])
        return r.view(SArr) if r.ndim else r[()]
    return g


def _max2(a, b):
    for x in (a, b):
        if isinstance(x, builtins.float) and x != x:
            return nan
    return a if a >= b else b


def _min2(a, b):
    for x in (a, b):
        if isinstance(x, builtins.float) and x != x:
            return nan
    return a if a <= b else b


def isscalar(x):
    return True if isinstance(x, SymBase) else _np.isscalar(x)


def ndim(x):
    if isinstance(x, (SymBase, SymArray)):
        return x.ndim
    return _np.ndim(x)


def tan(x):
    return sin(x) / cos(x)


def size(x):
    if isinstance(x, (SymBase, SymArray, SymField)):
        return x.size
    return _np.size(x)


def array_equal(a, b):
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        if not (isinstance(a, SymArray) and isinstance(b, SymArray)):
            raise Unsupported('comparison of a symbolic array')
        return same_arrays(a, b)
    a = _np.asarray(a, dtype=object)
    b = _np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    return nall([x == y for x, y in zip(a.ravel(), b.ravel())])


def npow(a, b):
    return array(a) ** b if hasattr(a, '__len__') else a ** b


def isreal(x):
    return True


def conj(x):
    if isinstance(x, (CSym, CArr)):
        return x.conjugate()
    if isinstance(x, _np.ndarray):
        return emap(lambda y: y.conjugate(), x)
    return x if has_sym(x) else _np.conj(x)


def real(x):
    return x.real


def imag(x):
    return x.imag


def nabs(x, **k):
    return abs(x) if isinstance(x, CArr) else emap(_abs1, x)


def outer(a, b):
    return SArr(_np.multiply.outer(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object)))


def unwrap(x):
    """concrete object arrays -> float arrays for real numpy functions"""
    if isinstance(x, SArr) and x.dtype == object:
        if has_sym(x):
            return x
        try:
            return _np.asarray(x.tolist())
        except Exception:
            return x
    return x


class NP(types.ModuleType):
    def __getattr__(self, name):
        r = getattr(_np, name)
        if isinstance(r, types.ModuleType) or isinstance(r, type):
            return r
        if callable(r):
            @functools.wraps(r)
            def f(*a, **k):
                if any(isinstance(x, (SymArray, SymField)) for x in a):
                    raise Unsupported('numpy.' + name)
                anysym = any(has_sym(x) for x in a)
                if not anysym:
                    a = [unwrap(x) for x in a]
                    k = {p: (builtins.float if q is vfloat else builtins.int if q is vint else unwrap(q))
                         for p, q in k.items()}
                elif isinstance(r, _np.ufunc) and r.types and name not in OBJ_OK:
                    raise Unsupported('numpy.' + name)
                elif name not in OBJ_OK:
                    raise Unsupported('numpy.' + name)
                v = r(*a, **k)
                if isinstance(v, _np.ndarray) and v.dtype == object:
                    return v.view(SArr)
                if isinstance(v, _np.ndarray) and v.dtype.kind == 'f':
                    return SArr(v)
                if isinstance(v, tuple):
                    return tuple(SArr(z) if isinstance(z, _np.ndarray) and z.dtype.kind == 'f' else z for z in v)
                return v
            return f
        return r


def rot90(a, k=1, axes=(0, 1)):
    if not isinstance(a, SymArray):
        return _np.rot90(_np.asarray(a), k, axes)
    if tuple(axes) != (0, 1) or len(a.dims) != 2 or set(a.state) != {None} or not isinstance(k, int):
        raise Unsupported('rot90')
    k %= 4
    c = a.copy()
    n, m = a.dims
    last = lambda d, i: simp_int(T.sub(T.sub(d, T.ONE), i))
    return built((n, m) if k % 2 == 0 else (m, n), [
        lambda i, j: element(c, (i, j)), lambda i, j: element(c, (j, last(m, i))),
        lambda i, j: element(c, (last(n, i), last(m, j))), lambda i, j: element(c, (last(n, j), i))][k])


OBJ_OK = {'append', 'concatenate', 'hstack', 'vstack', 'stack', 'transpose', 'reshape',
          'ravel', 'add', 'subtract', 'multiply', 'matmul', 'repeat', 'tile', 'diagonal',
          'trace', 'take', 'pad', 'broadcast_arrays', 'broadcast_to', 'expand_dims', 'squeeze',
          'flip', 'fliplr', 'flipud', 'roll', 'copy', 'delete', 'insert', 'shape', 'inner',
          'column_stack', 'swapaxes', 'moveaxis', 'triu', 'array_repr', 'iscomplexobj', 'result_type'}

numpy = NP('numpy')
numpy.__dict__.update(dict(
    zeros=zeros, empty=empty, ones=ones, full=full, zeros_like=_like(0.0),
    empty_like=_like(0.0), ones_like=_like(1.0), full_like=full_like, array=array,
    asarray=asarray, asanyarray=asarray, ascontiguousarray=ascontiguousarray,
    atleast_1d=atleast_1d, where=where,
    sum=nsum, mean=nmean, all=nall, any=nany, allclose=allclose, clip=clip, dot=dot,
    diag=diag, eye=eye, identity=eye, arange=arange, linspace=linspace, max=nmax, amax=nmax,
    min=nmin, amin=nmin, median=median, arctan2=arctan2, outer=outer,
    maximum=_bin2(_max2), minimum=_bin2(_min2), isscalar=isscalar, ndim=ndim, size=size,
    array_equal=array_equal, rot90=rot90, power=_bin2(lambda a, b: a ** b), isreal=isreal, conj=conj,
    divide=_bin2(divide if False else (lambda a, b: a / b)),
    sqrt=_el('sqrt', s_sqrt, _conc('sqrt')), exp=_el('exp', lambda x: s_fn('exp', x), _conc_exp),
    log=_el('log', s_log, _conc('log')),
    log10=_el('log10', lambda x: s_log(x) / _math.log(10.0), _conc('log10')),
    sin=_el('sin', lambda x: s_fn('sin', x), _conc('sin')),
    cos=_el('cos', lambda x: s_fn('cos', x), _conc('cos')),
    tan=_el('tan', _s_tan, _conc('tan')),
    tanh=_el('tanh', lambda x: s_fn('tanh', x), _conc('tanh')),
    arctanh=_el('arctanh', s_arctanh, _conc('arctanh')),
    arcsin=_el('arcsin', s_arcsin, _conc('arcsin')),
    arctan=_el('arctan', lambda x: s_fn('arctan', x), _conc('arctan')),
    sinh=_el('sinh', lambda x: s_fn('sinh', x), _conc('sinh')),
    cosh=_el('cosh', lambda x: s_fn('cosh', x), _conc('cosh')),
    floor=_el('floor', s_floor, _conc('floor')),
    square=_el('square', lambda x: x * x, _conc('square')),
    abs=nabs, absolute=nabs, real=real, imag=imag, conjugate=conj,
    fabs=lambda x, **k: emap(_abs1, x),
    isfinite=lambda x, **k: emap(_isfinite, x), isnan=lambda x, **k: emap(_isnan, x),
    isinf=lambda x, **k: emap(_isinf, x),
    pi=_np.pi, nan=nan, inf=inf, newaxis=None, ndarray=_np.ndarray, e=_np.e,
    float64=vfloat, int64=vint, int32=vint, float32=vfloat,
    cumsum=_unsup('cumsum'), argmax=_unsup('argmax'), argmin=_unsup('argmin'), sort=_unsup('sort'),
))

_linalg = types.ModuleType('numpy.linalg')


def _lfb(name):
    r = getattr(_np.linalg, name)

    def f(x, *a, **k):
        if has_sym(x):
            raise Unsupported('numpy.linalg.' + name)
        v = r(unwrap(x), *a, **k)
        return SArr(v) if isinstance(v, _np.ndarray) and v.dtype.kind == 'f' else v
    return f




def eigvals(m):
    """of a symmetric matrix of two rows, any order"""
    m = _np.asarray(m, dtype=object)
    if not any(isinstance(x, SymBase) for x in m.ravel()):
        return _np.linalg.eigvals(m.astype(float))
    if m.shape != (2, 2):
        raise Unsupported('numpy.linalg.eigvals')
    a, b, c, d = m[0, 0], m[0, 1], m[1, 0], m[1, 1]
    if not (b is c or (isinstance(b, Sym) and isinstance(c, Sym) and b.t is c.t)):
        raise Unsupported('numpy.linalg.eigvals')
    h = (a - d) / 2
    r = numpy.sqrt(h * h + b * b)
    out = _np.empty(2, dtype=object)
    out[0], out[1] = (a + d) / 2 + r, (a + d) / 2 - r
    return out.view(SArr)


_linalg.inv = inv
_linalg.eigvals = eigvals
_linalg.det = det
_linalg.LinAlgError = _np.linalg.LinAlgError
for _n in ('eig', 'eigh', 'eigvalsh', 'svd', 'norm', 'cholesky', 'solve', 'pinv', 'slogdet'):
    setattr(_linalg, _n, _lfb(_n))
numpy.linalg = _linalg


class _Random(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_np.random, name)


def _mkrng(seed=None):
    e = CUR[0]
    if e is None or getattr(e, 'vc', None) is None:
        return _np.random.RandomState(seed)
    return e.vc.rng('npr%d' % e.next_id('npr'))


numpy.random = _Random('numpy.random')
numpy.random.RandomState = _mkrng
numpy.random.default_rng = _mkrng
numpy.random.__dict__['randint'] = _np.random.randint

# ----------------------------------------------------------------- math
math = types.ModuleType('math')
math.__dict__.update({k: v for k, v in _math.__dict__.items() if not k.startswith('__')})


def _mfun(name, npf):
    r = getattr(_math, name)

    def f(x):
        if isinstance(x, SymBase):
            return npf(x)
        return r(x)
    return f


for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tanh', 'tan', 'floor', 'isnan', 'isfinite'):
    setattr(math, _n, _mfun(_n, numpy.__dict__[_n]))


def _serf(x):
    e = cur()
    e.array_facts.setdefault('erf', lambda t: T.band(T.lt(T.const(-1), T.fn('erf', t)), T.lt(T.fn('erf', t), T.ONE)))
    r = s_fn('erf', x)
    e.instantiate(lift(r))
    return r


math.erf = _mfun('erf', _serf)
math.atanh = _mfun('atanh', numpy.__dict__['arctanh'])

_scipy = types.ModuleType('scipy')


def _scipy_attr(name):
    import scipy
    return getattr(scipy, name)


_scipy.__getattr__ = _scipy_attr
_scipy.fft = _fftm

MODULES = {
    'scipy': _scipy,
    'numpy': numpy, 'numpy.linalg': _linalg, 'numpy.random': numpy.random,
    'numba': numba, 'numba.core': _core, 'numba.core.errors': _errors,
    'math': math, 'scipy.fft': _fftm,
}
