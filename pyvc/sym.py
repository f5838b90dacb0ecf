"""Symbolic values."""
import math
import itertools
import builtins
import numbers
from fractions import Fraction
import numpy as _np
from . import terms as T
from .engine import cur, Unsupported, PathAbort

nan = float('nan')
inf = float('inf')


class SymBase(object):
    __slots__ = ()


def is_num(x):
    return isinstance(x, (int, float, _np.integer, _np.floating, Fraction, _np.bool_))


def lift(x):
    """number -> Term, or None when it has no real value"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return T.ite(x.t, T.ONE, T.ZERO)
    if isinstance(x, (bool, _np.bool_)):
        return T.const(int(x))
    if isinstance(x, (int, _np.integer)):
        return T.const(int(x))
    if isinstance(x, Fraction):
        return T.const(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (inf, -inf):
            return None
        return T.const(Fraction(x))
    return None


def wrap(t):
    """Term -> Sym, or a Python number for constants"""
    if t.op == 'const':
        c = t.args[0]
        if c.denominator == 1 and abs(c.numerator) < 2 ** 53:
            return int(c) if t.sort == 'I' and False else float(c)
        f = float(c)
        if Fraction(f) == c:
            return f
    return Sym(t)


class Sym(SymBase):
    __slots__ = ('t',)
    __array_priority__ = -1000.0

    def __init__(self, t):
        self.t = t

    # numpy object arrays call these
    def _bin(self, o, f, swap=False):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (float, _np.floating)):
            o = float(o)
            if o != o:
                return nan
            if o in (inf, -inf):
                return self._inf(o, f, swap)
        if isinstance(o, (complex, _np.complexfloating)):
            from .cplx import CSym
            return CSym(self)._bin(o, COPS[f], swap)
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self.t
        if swap:
            a, b = b, a
        return mkreal(f(a, b), self, o)

    def clip(self, min=None, max=None):
        return clip_scalar(self, min, max)

    def _inf(self, o, f, swap):
        if f is T.add:
            return o
        if f is T.sub:
            return o if swap else -o
        if f is T.mul:
            s = cur().sign(self.t)
            if s == {'+'}:
                return o
            if s == {'-'}:
                return -o
            if cur().branch(T.lt(T.ZERO, self.t)):
                return o
            if cur().branch(T.lt(self.t, T.ZERO)):
                return -o
            return nan
        raise Unsupported('arithmetic with infinity')

    def __add__(self, o):
        return self._bin(o, T.add)

    def __radd__(self, o):
        return self._bin(o, T.add, True)

    def __sub__(self, o):
        return self._bin(o, T.sub)

    def __rsub__(self, o):
        return self._bin(o, T.sub, True)

    def __mul__(self, o):
        return self._bin(o, T.mul)

    def __rmul__(self, o):
        return self._bin(o, T.mul, True)

    def __neg__(self):
        return mkreal(T.neg(self.t), self)

    def __pos__(self):
        return self

    def __abs__(self):
        s = cur().sign(self.t)
        if '-' not in s:
            return self
        if '+' not in s:
            return mkreal(T.neg(self.t), self)
        if T.has_inverse(self.t):
            from .radical import rational_sign
            q = rational_sign(cur(), self.t, 12)
            if q is not None:
                return self if q > 0 else mkreal(T.neg(self.t), self)
        return mkreal(T.ite(T.lt(self.t, T.ZERO), T.neg(self.t), self.t), self)

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        a, b = self.t, lift(o)
        if a.sort == 'I' and b.sort == 'I':
            return wrap_int(int_quotient(a, b, 'idiv'))
        return Sym(T.fn('floor', T.div(a, b)))

    def __mod__(self, o):
        a, b = self.t, lift(o)
        if a.sort == 'I' and b is not None and b.sort == 'I':
            return wrap_int(int_quotient(a, b, 'imod'))
        q = T.fn('floor', T.div(a, b))
        return Sym(T.sub(a, T.mul(b, q)))

    def __pow__(self, o, m=None):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    # comparisons
    def _cmp(self, o, f):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if isinstance(o, (float, _np.floating)):
            o = float(o)
            if o != o:
                return SymBool(T.FALSE)
            if o == inf:
                return SymBool(f(T.ZERO, T.ONE))
            if o == -inf:
                return SymBool(f(T.ONE, T.ZERO))
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self.t
        if a.op == 'fn' and a.args[0] == 'sqrt' and b.op == 'const' and b.args[0] >= 0:
            # sqrt(t) ~ c  <=>  t ~ c^2   for t >= 0 (established when sqrt was taken)
            a, b = a.args[1], T.ipow(b, 2)
        return SymBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, T.lt)

    def __le__(self, o):
        return self._cmp(o, T.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: T.le(b, a))

    def __eq__(self, o):
        r = self._cmp(o, T.eq)
        return r if r is not NotImplemented else False

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: T.bnot(T.eq(a, b)))
        if r is NotImplemented:
            return True
        if isinstance(o, (float, _np.floating)) and o != o:
            return SymBool(T.TRUE)
        return r

    def __hash__(self):
        return hash(('Sym', self.t.id))

    def __bool__(self):
        return not cur().branch(T.eq(self.t, T.ZERO))

    def __float__(self):
        if self.t.op == 'const':
            return float(self.t.args[0])
        raise Unsupported('concrete float of a symbolic value')

    def __int__(self):
        if self.t.op == 'const':
            return int(self.t.args[0])
        raise Unsupported('concrete int of a symbolic value')

    def __index__(self):
        if self.t.op == 'const' and self.t.args[0].denominator == 1:
            return int(self.t.args[0])
        if self.t.sort == 'I':
            return concretise(self.t)
        raise Unsupported('symbolic value used as a concrete index')

    def __repr__(self):
        return '<%s>' % T.show(self.t)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy calls these for ufuncs on object arrays
    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_fn('exp', self)

    def log(self):
        return s_log(self)

    def sin(self):
        return s_fn('sin', self)

    def cos(self):
        return s_fn('cos', self)

    def tanh(self):
        return s_fn('tanh', self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def sum(self):
        return self

    def astype(self, *a, **k):
        return self


numbers.Real.register(Sym)


class _COps(object):
    def __getitem__(self, f):
        return {T.add: lambda a, b: _cs(a) + _cs(b), T.sub: lambda a, b: _cs(a) - _cs(b),
                T.mul: lambda a, b: _cs(a) * _cs(b)}[f]


def _cs(a):
    from .cplx import CSym
    return CSym(*a)


COPS = _COps()


def mkreal(t, *ops):
    return wrap(t) if t.op == 'const' else Sym(t)


def wrap_int(t):
    if t.op == 'const' and t.args[0].denominator == 1:
        return int(t.args[0])
    return Sym(t)


class SymBool(SymBase):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return SymBool(T.band(self.t, blift(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return SymBool(T.bor(self.t, blift(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(T.bnot(T.iff(self.t, blift(o))))

    def __invert__(self):
        return SymBool(T.bnot(self.t))

    def logical_not(self):
        return SymBool(T.bnot(self.t))

    def __eq__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        b = blift(o) if isinstance(o, (SymBool, bool, _np.bool_)) else None
        if b is None:
            return Sym(lift(self)) == o
        return SymBool(T.iff(self.t, b))

    def __ne__(self, o):
        return SymBool(T.bnot((self == o).t))

    def __hash__(self):
        return hash(('SymBool', self.t.id))

    # arithmetic on booleans
    def _n(self):
        return mkreal(lift(self))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return '<%s>' % T.show(self.t)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def blift(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, Sym):
        return o.t if o.t.sort == 'B' else T.bnot(T.eq(o.t, T.ZERO))
    return T.TRUE if o else T.FALSE


def is_zero_branch(t):
    """fork on t == 0"""
    return cur().branch(T.eq(t, T.ZERO))


class NumpyDivZero(Exception):
    pass


def divide(a, b):
    """a / b ; on the path where b == 0 behaves like numba (error_model
    'python') / Python floats inside jitted code, and like numpy floats
    (nan or inf, represented by nan) elsewhere"""
    for x in (a, b):
        if isinstance(x, (float, _np.floating)) and x != x:
            return nan
    if isinstance(b, (float, _np.floating)) and float(b) in (inf, -inf):
        if isinstance(a, (float, _np.floating)) and float(a) in (inf, -inf):
            return nan
        return 0.0
    tb = lift(b)
    if tb is None:
        return NotImplemented
    if tb.op == 'const':
        if tb.args[0] == 0:
            return _div_zero(a)
    elif '0' in cur().sign(tb):
        if is_zero_branch(tb):
            return _div_zero(a)
    if isinstance(a, (float, _np.floating)) and float(a) in (inf, -inf):
        raise Unsupported('inf / symbolic')
    ta = lift(a)
    if ta is None:
        return NotImplemented
    return mkreal(T.div(ta, tb))


def _div_zero(a):
    if cur().njit_depth > 0:
        raise ZeroDivisionError('division by zero')
    s = cur().sign(lift(a)) if lift(a) is not None else set()
    # numpy: x/0 is +-inf, 0/0 is nan.  Only "not finite" is represented.
    if s == {'+'}:
        return inf
    if s == {'-'}:
        return -inf
    if s == {'0'}:
        return nan
    ta = lift(a)
    if ta is None:
        return nan
    if cur().branch(T.eq(ta, T.ZERO)):
        return nan
    if cur().branch(T.lt(T.ZERO, ta)):
        return inf
    return -inf


def power(a, b):
    if isinstance(b, (bool, _np.bool_)):
        b = int(b)
    if isinstance(b, (int, _np.integer)):
        b = float(b)
    if isinstance(b, (float, _np.floating)):
        b = float(b)
        if b != b:
            return nan
        if b == int(b):
            n = int(b)
            t = a.t
            if n < 0 and '0' in cur().sign(t):
                if is_zero_branch(t):
                    return _div_zero(1.0)
            return mkreal(T.ipow(t, n))
        if b * 2 == int(b * 2):
            r = s_sqrt(a)
            return r ** int(b * 2) if isinstance(r, Sym) else r ** (b * 2)
        # general real exponent, positive base
        t = a.t
        if not cur().branch(T.lt(T.ZERO, t)):
            raise Unsupported('power of a non-positive base')
        return mkreal(T.fn('exp', T.mul(T.const(Fraction(b)), T.fn('log', t))))
    tb = lift(b)
    if tb is None:
        return NotImplemented
    if isinstance(a, Sym):
        t = a.t
        if not cur().branch(T.lt(T.ZERO, t)):
            raise Unsupported('power of a non-positive base')
        return mkreal(T.fn('exp', T.mul(tb, T.fn('log', t))))
    if float(a) == 10.0:
        return mkreal(T.fn('exp10', tb))
    if float(a) > 0:
        return mkreal(T.fn('exp', T.mul(tb, T.fn('log', lift(a)))))
    raise Unsupported('power')


def s_sqrt(a):
    t = a.t
    from .radical import simp_sqrt, rational_sign
    if '-' in cur().sign(t):
        if not (T.has_inverse(t) and cur().quick(T.lt(t, T.ZERO)) is None and rational_sign(cur(), t) == 1):
            if cur().branch(T.lt(t, T.ZERO)):
                return nan
    return mkreal(simp_sqrt(cur(), t))


def s_log(a):
    t = a.t
    s = cur().sign(t)
    if s != {'+'}:
        if cur().branch(T.le(t, T.ZERO)):
            if cur().branch(T.eq(t, T.ZERO)):
                return -inf
            return nan
    return mkreal(T.fn('log', t))


def s_fn(name, a):
    if name == 'tanh':
        m = T._linear_in(a.t, 'arctanh')
        if m is not None and m[0] == T.Fraction(1, 2):
            from .radical import simp_sqrt
            x = m[1]
            # lemma tanh_half
            return mkreal(T.div(x, T.add(T.ONE, simp_sqrt(cur(), T.sub(T.ONE, T.ipow(x, 2))))))
    return mkreal(T.fn(name, a.t))


def s_arctanh(a):
    t = a.t
    if cur().branch(T.band(T.lt(T.MONE, t), T.lt(t, T.ONE))):
        return mkreal(T.fn('arctanh', t))
    if cur().branch(T.eq(t, T.ONE)):
        return inf
    if cur().branch(T.eq(t, T.MONE)):
        return -inf
    return nan


def s_arcsin(a):
    t = a.t
    if cur().branch(T.band(T.le(T.MONE, t), T.le(t, T.ONE))):
        return mkreal(T.fn('arcsin', t))
    return nan


def s_floor(a):
    return Sym(T.fn('floor', a.t)) if a.t.sort != 'I' else a


def s_int(a):
    if a.t.sort == 'I':
        return a
    t = T.fn('toint', a.t)
    return wrap_int(t)


# --------------------------------------------------------------- arrays

class SArr(_np.ndarray):
    """concrete-shape array with symbolic elements (dtype object)"""

    def __new__(cls, a):
        return _np.asarray(a, dtype=object).view(cls)

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, a, context=None, return_scalar=False):
        if a.ndim == 0:
            return a[()]
        return a.view(SArr) if a.dtype == object else a

    def _cmp(self, o, f):
        if self.dtype != object:
            return NotImplemented
        a, b = _np.broadcast_arrays(_np.asarray(self), _np.asarray(o, dtype=object))
        r = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(*a.shape):
            x = f(a[i], b[i])
            r[i] = x if isinstance(x, SymBool) else bool(x)
        if r.ndim == 0:
            return r[()]
        return r.view(SArr)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _same_fields(self, o):
        r = None
        for n in self.dtype.names:
            c = _np.asarray(self)[n].view(SArr)._cmp(_np.asarray(o)[n], lambda a, b: a == b)
            r = c if r is None else r & c
        return r

    def __eq__(self, o):
        if self.dtype.names and isinstance(o, _np.ndarray) and o.dtype.names == self.dtype.names:
            return self._same_fields(o)
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if self.dtype.names and isinstance(o, _np.ndarray) and o.dtype.names == self.dtype.names:
            return ~self._same_fields(o)
        return self._cmp(o, lambda a, b: a != b)

    def __invert__(self):
        return SArr([~x if isinstance(x, SymBool) else (not x) for x in self.ravel()]).reshape(self.shape)

    def __and__(self, o):
        return self._cmp(o, lambda a, b: SymBool(T.band(blift(a), blift(b))))

    def __or__(self, o):
        return self._cmp(o, lambda a, b: SymBool(T.bor(blift(a), blift(b))))

    __hash__ = None

    def __getitem__(self, k):
        k = fix_index(k, self)
        r = super().__getitem__(k)
        return r

    def __setitem__(self, k, v):
        k = fix_index(k, self)
        if isinstance(v, SymArray):
            raise Unsupported('symbolic-length array stored into a concrete one')
        if self.dtype == object and isinstance(v, (_np.floating, _np.integer)):
            v = v.item()
        super().__setitem__(k, v)

    def astype(self, dt, *a, **k):
        if self.dtype != object:
            return super().astype(dt, *a, **k)
        return self.copy()

    @property
    def real(self):
        if self.dtype != object:
            return _np.asarray(self).real
        from .cplx import creal
        return SArr([creal(x) for x in self.ravel()]).reshape(self.shape)

    @property
    def imag(self):
        if self.dtype != object:
            return _np.asarray(self).imag
        from .cplx import cimag
        return SArr([cimag(x) for x in self.ravel()]).reshape(self.shape)

    def all(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('all(axis)')
        return SymBool(T.band(*[blift(x) for x in self.ravel()]))

    def any(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('any(axis)')
        return SymBool(T.bor(*[blift(x) for x in self.ravel()]))

    def clip(self, min=None, max=None, out=None, **k):
        r = _np.empty(self.shape, dtype=object)
        for i in _np.ndindex(*self.shape):
            r[i] = clip_scalar(super().__getitem__(i), min, max)
        if out is not None:
            out[...] = r
            return out
        return r.view(SArr)

    def std(self, *a, **k):
        raise Unsupported('std')

    def sum(self, axis=None, **k):
        if axis is None:
            return seqsum(self.ravel())
        return super().sum(axis=axis, **k)

    def mean(self, axis=None, **k):
        if axis is None:
            return seqsum(self.ravel()) / self.size
        raise Unsupported('mean(axis)')

    def max(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('max(axis)')
        r = None
        for x in self.ravel():
            if r is None or x > r:
                r = x
        return r

    def min(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('min(axis)')
        r = None
        for x in self.ravel():
            if r is None or x < r:
                r = x
        return r


def seqsum(xs):
    r = 0.0
    for x in xs:
        r = r + x
    if type(r) is float and cur().njit_depth == 0:
        return _np.float64(r)
    return r


def clip_scalar(x, lo, hi):
    if isinstance(x, float) and x != x:
        return x
    if lo is not None and x < lo:
        return lo
    if hi is not None and x > hi:
        return hi
    return x


def fix_index(k, arr, axis=0):
    if isinstance(k, tuple):
        return tuple(fix_index(x, arr, i) for i, x in enumerate(k))
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        return sym_index(k, arr.shape[axis])
    if isinstance(k, float) and k == int(k):
        return k
    if isinstance(k, _np.ndarray) and k.dtype == object:
        if k.size and isinstance(k.ravel()[0], (SymBool, bool, _np.bool_)):
            return _np.array([bool(x) for x in k.ravel()], dtype=bool).reshape(k.shape)
        return _np.array([x.__index__() if isinstance(x, Sym) else int(x) for x in k.ravel()],
                         dtype=int).reshape(k.shape)
    return k


class SymRange(object):
    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range outside a for loop')

    def __len__(self):
        raise Unsupported('len of symbolic range')


class SymRecord(object):
    """element of a structured SymArray"""
    __slots__ = ('arr', 'idx')

    def __init__(self, arr, idx):
        self.arr = arr
        self.idx = idx

    def __getitem__(self, f):
        return self.arr.read(f, self.idx)

    def __setitem__(self, f, v):
        self.arr.write(f, self.idx, v)


class SymField(object):
    """a['field'] of a structured SymArray"""

    def __init__(self, arr, f):
        self.arr = arr
        self.f = f

    @property
    def size(self):
        return self.arr.size

    @property
    def shape(self):
        return self.arr.shape

    def __getitem__(self, i):
        return self.arr.read(self.f, self.arr.index(i))

    def __setitem__(self, i, v):
        if isinstance(i, slice) and i == slice(None):
            return assign_field(self.arr, self.f, v)
        self.arr.write(self.f, self.arr.index(i), v)

    def sum(self):
        a = self.arr
        if len(a.dims) != 1:
            raise Unsupported('sum of 2d field')
        return mkreal(cur().total([(T.ZERO, a.dims[0])], lambda i: number(a.read_raw(self.f, (i,)))))

    def __len__(self):
        raise Unsupported('len')


class SymFlags(object):
    c_contiguous = True

    def __init__(self, arr):
        self.arr = arr

    def __setitem__(self, k, v):
        if k.lower() != 'writeable':
            raise Unsupported('flag ' + k)
        self.arr.writable = bool(v)

    def __getitem__(self, k):
        if k.lower() != 'writeable':
            raise Unsupported('flag ' + k)
        return self.arr.writable

    writeable = property(lambda self: self.arr.writable, lambda self, v: setattr(self.arr, 'writable', bool(v)))


def whole(x):
    return isinstance(x, slice) and x == slice(None)


class SymArray(object):
    """array of symbolic length.  fields: {name or None: state}; a state is a
    Python function from index terms to a Term (possibly through writes)."""

    stale = False
    # whether the elements are true or false
    boolean = False
    _sel = None
    views = None

    def __init__(self, name, dims, fields, check_bounds=True):
        self.name = name
        self.dims = tuple(dims)
        self.state = {}
        for f in fields:
            nm = name if f is None else '%s.%s' % (name, f)
            self.state[f] = ('base', nm)
        self.check_bounds = check_bounds
        self.writable = True
        self.log = None

    # --- numpy-ish interface
    @property
    def size(self):
        return mkint(T.mul(*self.dims)) if len(self.dims) > 1 else mkint(self.dims[0])

    @property
    def shape(self):
        return tuple(mkint(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    def index(self, i):
        if not isinstance(i, tuple):
            i = (i,)
        if len(i) != len(self.dims):
            raise Unsupported('partial index of a symbolic array')
        out = []
        for x, d in zip(i, self.dims):
            t = lift(x)
            if t is None:
                raise Unsupported('index %r' % (x,))
            if t.sort != 'I':
                raise Unsupported('non-integer index')
            if t.op == 'const' and t.args[0] < 0:
                t = T.add(t, d)
            out.append(t)
        return tuple(out)

    def _bounds(self, idx):
        if not self.check_bounds:
            return
        e = cur()
        g = T.band(*[T.band(T.le(T.ZERO, x), T.lt(x, d)) for x, d in zip(idx, self.dims)])
        if e.quick(g) is True:
            return
        if not e.in_discovery() and any(u.op == 'sum' for d in self.dims for u in T.subterms(d)):
            for d in self.dims:
                e.count_facts(d)
        key = (self.name, 'bounds', g.id, tuple(sorted(c.id for c in e.pc)))
        if key in e.cache:
            ok = e.cache[key]
        else:
            ok = e.ensure('index in bounds: %s' % self.name, g)
            if e.in_discovery():
                return
            e.cache[key] = ok
        if ok:
            e.assume(g)
        else:
            # behave like a failing access
            raise IndexError('index out of bounds for %s' % self.name)

    def read_raw(self, f, idx):
        return mkreal(self._read_state(self.state[f], idx))

    def _read_state(self, st, idx):
        kind = st[0]
        if kind == 'base':
            t = T.fn(st[1], *idx)
            cur().instantiate(t)
            return t
        if kind == 'const':
            return st[1]
        if kind == 'store':
            _, prev, widx, val = st
            if all(a is b for a, b in zip(widx, idx)):
                return val
            c = T.band(*[T.eq(a, b) for a, b in zip(widx, idx)])
            q = cur().quick(c)
            if q is False:
                return self._read_state(prev, idx)
            if q is True:
                return val
            return T.ite(c, val, self._read_state(prev, idx))
        if kind == 'map':
            # for k in [lo,hi): index base+k gets val(k)
            _, prev, lo, hi, kvar, widx, val = st
            # widx affine in kvar in exactly one dimension: widx[d] = kvar + off
            d = [j for j, w in enumerate(widx) if kvar in w.fv]
            d = d[0]
            off = T.sub(widx[d], kvar)
            off = simp_int(off)
            k = simp_int(T.sub(idx[d], off))
            cond = [T.le(lo, k), T.lt(k, hi)]
            for j, w in enumerate(widx):
                if j != d:
                    cond.append(T.eq(w, idx[j]))
            c = T.band(*cond)
            q = cur().quick(c)
            v = T.subst(val, {kvar: k})
            if q is True:
                return v
            p = self._read_state(prev, idx)
            if q is False:
                return p
            return T.ite(c, v, p)
        if kind == 'map2':
            # block o (lo <= o < hi) of size elements: index base + size*o + r gets val(o, ilo + r)
            _, prev, lo, hi, ov, kv, ilo, size, base, d, wi, val = st
            q, r = poly_divide(simp_int(T.sub(idx[d], base)), size)
            e = cur()
            if e.quick(T.band(T.le(T.ZERO, r), T.lt(r, size))) is not True:
                raise Unsupported('index into blocks')
            cond = [T.le(lo, q), T.lt(q, hi)]
            for j, w in enumerate(wi):
                if j != d:
                    cond.append(T.eq(w, idx[j]))
            c = T.band(*cond)
            k = e.quick(c)
            v = T.subst(val, {ov: q, kv: T.add(ilo, r)})
            if k is True:
                return v
            p = self._read_state(prev, idx)
            return p if k is False else T.ite(c, v, p)
        if kind == 'rows':
            # row o (lo <= o < hi), columns k in [ilo, ihi): the element wi(o, k) gets val(o, k)
            _, prev, lo, hi, ov, kv, ilo, ihi, dr, dc, wi, val = st
            o = simp_int(T.sub(idx[dr], T.sub(wi[dr], ov)))
            k = simp_int(T.sub(idx[dc], T.sub(wi[dc], kv)))
            cond = [T.le(lo, o), T.lt(o, hi), T.le(ilo, k), T.lt(k, ihi)]
            for j, w in enumerate(wi):
                if j not in (dr, dc):
                    cond.append(T.eq(w, idx[j]))
            c = T.band(*cond)
            q = cur().quick(c)
            v = T.subst(val, {ov: o, kv: k})
            if q is True:
                return v
            p = self._read_state(prev, idx)
            return p if q is False else T.ite(c, v, p)
        if kind == 'pack':
            # for each ks in their ranges with G(ks): the next element is val(ks)
            _, prev, ks, ranges, first, last, wi, d, G, val = st
            e = cur()
            e.count_facts(last)
            c = T.lt(idx[d], first)
            if e.quick(c) is True or e.quick(T.le(last, idx[d])) is True:
                return self._read_state(prev, idx)
            for pick in itertools.product(e.index_terms, repeat=len(ks)):
                m = dict(zip(ks, pick))
                ok = T.band(*[T.eq(T.subst(w, m), x) for w, x in zip(wi, idx)])
                if e.quick(ok) is not True:
                    continue
                ok = T.band(*[T.band(T.le(T.subst(lo, m), k), T.lt(k, T.subst(hi, m))) for k, (lo, hi) in zip(pick, ranges)])
                if e.quick(ok) is True and e.quick(T.subst(G, m)) is True:
                    return T.subst(val, m)
            raise Unsupported('index into packed elements')
        if kind == 'fun':
            return st[1](*idx)
        if kind == 'flat':
            # the elements are those of a one-dimensional view
            f = st[1]
            return f._read_state(f.state[None], (simp_int(T.add(T.mul(idx[0], self.dims[1]), idx[1])),))
        raise Unsupported(kind)

    def ravel(self, order='C'):
        """the same elements, row by row"""
        if order != 'C' or None not in self.state:
            raise Unsupported('ravel')
        if len(self.dims) == 1:
            return self
        if len(self.dims) != 2:
            raise Unsupported('ravel')
        st = self.state[None]
        if st[0] == 'flat':
            return st[1]
        r = SymArray(self.name, [T.mul(*self.dims)], [None], self.check_bounds)
        r.writable = self.writable
        if st[0] == 'const':
            r.state[None] = st
        else:
            r.state[None] = ('fun', lambda k, a=self.copy(): a._read_flat(k))
        self.state[None] = ('flat', r)
        return r

    def reshape(self, *shape, **k):
        """a one-dimensional array as one row or one column (a view: not to be written, out of date when the array is)"""
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if k or len(self.dims) != 1 or None not in self.state or len(shape) != 2 or len([x for x in shape if isinstance(x, int) and x == 1]) != 1:
            raise Unsupported('reshape')
        d = 1 if isinstance(shape[0], int) and shape[0] == 1 else 0
        x = shape[d]
        if not (isinstance(x, int) and x == -1) and lift(x) is not self.dims[0]:
            raise Unsupported('reshape')
        dims = [T.ONE, T.ONE]
        dims[d] = self.dims[0]
        r = SymArray(self.name, dims, [None], self.check_bounds)
        r.state[None] = ('fun', lambda i, j, a=self.copy(): a._read_state(a.state[None], ((i, j)[d],)))
        r.writable = False
        r.boolean = self.boolean
        r.stale = self.stale
        self.views = (self.views or []) + [r]
        return r

    def _read_flat(self, k):
        q, r = poly_divide(simp_int(k), self.dims[1])
        if cur().quick(T.band(T.le(T.ZERO, r), T.lt(r, self.dims[1]))) is not True:
            raise Unsupported('index into rows')
        return self._read_state(self.state[None], (q, r))

    def _unlink(self):
        """before a write: from here on the view that had the elements is out of date"""
        st = self.state.get(None)
        if st and st[0] == 'flat':
            self.state[None] = ('flat', st[1].copy())
            st[1].stale = True
        for v in self.views or ():
            v.stale = True

    def read(self, f, idx):
        self._bounds(idx)
        if self.stale:
            raise Unsupported('view of an array written since')
        if f not in self.state:
            raise ValueError('no field of name %s' % f)
        return self.read_raw(f, idx)

    def write(self, f, idx, v):
        self._bounds(idx)
        self._unlink()
        if self.stale:
            raise Unsupported('view of an array written since')
        if not self.writable:
            raise ValueError('assignment destination is read-only')
        t = lift(v)
        if t is None:
            t = T.var('nan!const')
        self.state[f] = ('store', self.state[f], idx, t)

    def __getitem__(self, i):
        if isinstance(i, str):
            if i not in self.state:
                raise ValueError('no field of name %s' % i)
            return SymField(self, i)
        if isinstance(i, slice) and i == slice(None):
            return self
        if (isinstance(i, tuple) and len(i) == len(self.dims) == 2 and None in self.state and isinstance(i[1], slice)
                and not isinstance(i[0], slice) and isinstance(i[1].stop, int) and i[1].stop >= 0
                and isinstance(i[1].start or 0, int) and (i[1].start or 0) >= 0 and i[1].step is None):
            # the first elements of a row (as many as asked for: the last one has to be there)
            return SArr([self.read(None, self.index((i[0], k))) for k in range(i[1].start or 0, i[1].stop)])
        if (isinstance(i, tuple) and len(i) == len(self.dims) == 2 and None in self.state and whole(i[1]) and not isinstance(i[0], slice)
                and self.dims[1].op == 'const'):
            # a row of few elements: read only, because it is no view
            r = SArr([self.read(None, self.index((i[0], k))) for k in range(int(self.dims[1].args[0]))])
            r.flags.writeable = False
            return r
        if selection(i) is not None and None in self.state:
            return Picked(selection(i), self.copy())
        idx = self.index(i)
        if None in self.state:
            return self.read(None, idx)
        self._bounds(idx)
        return SymRecord(self, idx)

    def __setitem__(self, i, v):
        self._unlink()
        if self.stale:
            raise Unsupported('view of an array written since')
        if isinstance(i, str):
            return assign_field(self, i, v)
        if isinstance(i, tuple) and len(i) == len(self.dims) and all(isinstance(x, slice) and x == slice(None) for x in i):
            i = slice(None, None, None)
        if isinstance(i, slice) and i == slice(None, None, None) and isinstance(v, SymArray):
            if set(v.state) != set(self.state):
                raise Unsupported('array assignment')
            for f in self.state:
                assign_field(self, f, v if f is None else SymField(v, f))
            return
        if (isinstance(i, tuple) and len(i) == len(self.dims) == 2 and isinstance(i[1], slice) and i[1] == slice(None)
                and not isinstance(i[0], slice) and None in self.state):
            # a row
            t, r = lift(v), lift(i[0])
            if t is None or r is None or r.sort != 'I' or cur().quick(T.lt(T.ZERO, self.dims[1])) is not True:
                raise Unsupported('assignment to a row')
            self._bounds((r, T.ZERO))
            if not self.writable:
                raise ValueError('assignment destination is read-only')
            kv = T.var('k!map%d' % t.depth, 'I')
            self.state[None] = ('map', self.state[None], T.ZERO, self.dims[1], kv, (r, kv), t)
            return
        if isinstance(i, tuple) and len(i) == len(self.dims) == 2 and whole(i[0]) and not isinstance(i[1], slice) and None in self.state:
            # a column
            c = lift(i[1])
            if c is None or c.sort != 'I' or cur().quick(T.lt(T.ZERO, self.dims[0])) is not True:
                raise Unsupported('assignment to a column')
            c = self.index((0, i[1]))[1]
            self._bounds((T.ZERO, c))
            if not self.writable:
                raise ValueError('assignment destination is read-only')
            if isinstance(v, SymArray):
                if len(v.dims) != 1 or None not in v.state or cur().quick(T.eq(v.dims[0], self.dims[0])) is not True:
                    raise Unsupported('array assignment')
                new = (lambda a: lambda r: element(a, (r,)))(v.copy())
            else:
                if lift(v) is None:
                    raise Unsupported('array assignment')
                new = (lambda t: lambda r: t)(lift(v))

            def column(r, k, prev=self.state[None]):
                q = cur().quick(T.eq(k, c))
                if q is True:
                    return new(r)
                old = self._read_state(prev, (r, k))
                return old if q is False else T.ite(T.eq(k, c), new(r), old)
            self.state[None] = ('fun', column)
            return
        if isinstance(i, slice) and i == slice(None, None, None):
            t = lift(v)
            if t is None:
                raise Unsupported('array assignment')
            if not self.writable:
                raise ValueError('assignment destination is read-only')
            for f in self.state:
                self.state[f] = ('const', t)
            return
        if isinstance(i, slice) and i.step is None and isinstance(v, Picked) and len(self.dims) == len(v.arr.dims) == 1 and None in self.state:
            return self._fill(i, v)
        c = selection(i)
        if c is not None and None in self.state:
            if not self.writable:
                raise ValueError('assignment destination is read-only')
            if isinstance(v, Picked):
                if v.cond is not c:
                    raise Unsupported('assignment of other elements')
                new = (lambda a: lambda idx: element(a, idx))(v.arr)
            elif isinstance(v, SymArray):
                raise Unsupported('assignment to selected elements')
            else:
                if lift(v) is None:
                    raise Unsupported('non-finite element')
                new = (lambda t: lambda idx: t)(lift(v))
            if any(a is not b for a, b in zip(c.dims, self.dims)):
                raise Unsupported('selection of another shape')
            self.state[None] = chosen(c, new, self.copy()).state[None]
            return
        idx = self.index(i)
        if None not in self.state:
            if isinstance(v, SymRecord):
                for f in self.state:
                    self.write(f, idx, v[f])
                return
            raise Unsupported('record assignment')
        self.write(None, idx, v)

    def _fill(self, i, v):
        """self[lo:hi] = the elements of an array that meet a condition, as many as those are"""
        e = cur()
        n, (m,) = self.dims[0], v.arr.dims
        lo = lift(i.start if i.start is not None else 0)
        hi = lift(i.stop) if i.stop is not None else n
        size = count(v.cond)
        # contract of counting
        e.assume(T.le(T.ZERO, size))
        e.assume(T.le(size, m))
        for c in (T.le(T.ZERO, lo), T.le(hi, n), T.eq(T.sub(hi, lo), size)):
            if e.quick(c) is not True and e.prove('slice', c).status != 'proved':
                raise Unsupported('slice of a symbolic array')
        if not self.writable:
            raise ValueError('assignment destination is read-only')
        if getattr(v.cond, 'picks', None) is None:
            v.cond.picks = {}
        cond, arr, picks, old = v.cond, v.arr.copy(), v.cond.picks, self.state[None]

        def new(k):
            # the element number k - lo among those that meet the condition: some of them
            e = cur()
            c = T.band(T.le(lo, k), T.lt(k, hi))
            q = e.quick(c)
            if q is False:
                return self._read_state(old, (k,))
            p = simp_int(T.sub(k, lo))
            if p not in picks:
                w = T.fresh('pick', 'I')
                e.locals_set.add(w)
                con = [T.le(T.ZERO, w), T.lt(w, m)]
                con += [T.subst(f, {x: w}) for x, a, b, f in e.forall if a is T.ZERO and b is m]

                def first(env, rng):
                    return rng.randrange(int(T.evaluate(m, env)))
                both = e.scoped(con, lambda: (mask(cond, (w,)), element(arr, (w,))), [(w, first)])
                if both is None:
                    raise Unsupported('elements of an empty array')
                mt, r = both

                def find(env, rng):
                    left = int(T.evaluate(p, env))
                    for x in range(int(T.evaluate(m, env))):
                        if T.evaluate(mt, dict(env, **{w.args[0]: x})):
                            if left == 0:
                                return x
                            left -= 1
                    return 0
                e.declare_local(w, find)
                e.add_index(w)
                picks[p] = w, mt, {id(arr): r}
            w, mt, r = picks[p]
            e.inst_all(mt)
            e.assume(T.bor(T.bnot(c), T.band(T.le(T.ZERO, w), T.lt(w, m), mt)))
            if id(arr) not in r:
                con = [T.le(T.ZERO, w), T.lt(w, m), mt]
                con += [T.subst(f, {x: w}) for x, a, b, f in e.forall if a is T.ZERO and b is m]
                r[id(arr)] = e.scoped(con, lambda: element(arr, (w,)))
                if r[id(arr)] is None:
                    raise Unsupported('elements of an empty array')
            r = r[id(arr)]
            e.inst_all(r)
            return r if q is True else T.ite(c, r, self._read_state(old, (k,)))
        self.state[None] = ('fun', new)

    def __len__(self):
        raise Unsupported('len of a symbolic array (use the shim)')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic array outside a for loop')

    def sum(self):
        if None not in self.state:
            raise Unsupported('sum')
        if self.boolean:
            return mkint(count(self))
        return mkreal(cur().total([(T.ZERO, d) for d in self.dims],
                                  lambda *idx: number(self.read_raw(None, idx))))

    def any(self, axis=None, **k):
        if axis is not None or k or None not in self.state:
            raise Unsupported('any')
        e = cur()
        if e.nobranch:
            raise Unsupported('any')
        c = count(self)
        if e.branch(T.lt(T.ZERO, c)):
            return True
        # none of them is true
        e.none_of(T.le(c, T.ZERO))
        return False

    def all(self, axis=None, **k):
        if axis is not None or k:
            raise Unsupported('all')
        return not lazy(lambda x: SymBool(T.bnot(blift(x))), self).any()

    def mean(self):
        return self.sum() / self.size

    def clip(self, min=None, max=None, out=None):
        r = lazy(lambda x: clip_scalar(x, min, max), self)
        if out is None:
            return r
        out[:] = r
        return out

    def view(self, *a):
        """the same elements, with a flag of its own"""
        if a:
            raise Unsupported('view')
        r = self.copy()
        r.state = self.state
        r.writable = self.writable
        return r

    @property
    def flags(self):
        return SymFlags(self)

    def setflags(self, write=None):
        if write is not None:
            self.writable = bool(write)

    def copy(self):
        r = SymArray.__new__(SymArray)
        r.name = self.name
        r.dims = self.dims
        r.state = dict(self.state)
        if None in r.state and r.state[None][0] == 'flat':
            r.state[None] = ('flat', r.state[None][1].copy())
        r.check_bounds = self.check_bounds
        r.writable = True
        r.log = None
        r.stale = self.stale
        r.boolean = self.boolean
        return r

    def __deepcopy__(self, memo):
        return self.copy()


def mkint(t):
    if t.op == 'const':
        return int(t.args[0])
    return Sym(t)


def simp_int(t):
    """linear simplification of an index term"""
    from .norm import Normalizer
    if t.op in ('const', 'var'):
        return t
    n = Normalizer(())
    p = n.nf(t)
    if all(c.denominator == 1 for c in p.values()):
        out = []
        for m, c in sorted(p.items()):
            fs = [T.const(c)]
            for a, e in m:
                fs.append(T.ipow(n.atom_term(a), e))
            out.append(T.mul(*fs))
        return T.add(*out) if out else T.ZERO
    return t


def concretise(t, limit=64):
    """split over the values an integer term can take on this path"""
    from . import smt
    e = cur()
    tried = set()
    while len(tried) < limit:
        v = None
        for k in list(e.alive):
            try:
                x = int(e.ev(t, k))
            except (T.EvalError, ValueError, OverflowError):
                continue
            if x not in tried:
                v = x if v is None else min(v, x)
        if v is None:
            r, env = smt.check_sat(list(e.pc), 2000, want_model=True)
            if r == 'unsat':
                raise PathAbort()
            if r != 'sat' or env is None:
                break
            e.add_sample(env)
            ks = list(e.alive)
            if not ks:
                break
            v = int(e.ev(t, ks[-1]))
            if v in tried:
                break
        if bool(SymBool(T.eq(t, T.const(v)))):
            return v
        tried.add(v)
    raise Unsupported('symbolic value used as a concrete index')


def int_quotient(a, b, op):
    """floor quotient (idiv) or remainder (imod) of two integers"""
    e = cur()
    if e.quick(T.lt(T.ZERO, b)) is True:
        try:
            q, r = poly_divide(simp_int(a), b)
            if e.quick(T.band(T.le(T.ZERO, r), T.lt(r, b))) is True:
                return q if op == 'idiv' else r
        except Unsupported:
            pass
    return T.fn(op, a, b)


def poly_divide(t, a):
    """q, r with t = a*q + r (polynomially; a one atom or a constant)"""
    from .norm import Normalizer
    n = Normalizer(())
    p = n.nf(t)
    if a.op == 'const':
        av = a.args[0]
        q = {m: c / av for m, c in p.items() if (c / av).denominator == 1 and m}
        r = {m: c for m, c in p.items() if m not in q}
    else:
        (am, ac), = n.nf(a).items() if len(n.nf(a)) == 1 else ((None, None),)
        if am is None or len(am) != 1 or am[0][1] != 1 or ac != 1:
            return T.ZERO, t
        key = am[0][0]
        q, r = {}, {}
        for m, c in p.items():
            dm = dict(m)
            if dm.get(key, 0) >= 1:
                dm[key] -= 1
                if not dm[key]:
                    del dm[key]
                mm = tuple((k, e) for k, e in m if k in dm)
                mm = tuple((k, dm[k]) for k, e in mm)
                q[mm] = q.get(mm, 0) + c
            else:
                r[m] = c
    return simp_int(n.to_term(q)), simp_int(n.to_term(r))


class SymSeq(object):
    """a sequence of any (symbolic) number of objects; element k is f(k).
    The elements are immutable as far as loops are concerned"""

    def __init__(self, n, f):
        self.dims = (lift(n),)
        self.f = f

    @property
    def shape(self):
        return (mkint(self.dims[0]),)

    def __getitem__(self, k):
        return self.f(k)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic sequence outside a for loop')

    def __len__(self):
        raise Unsupported('len of symbolic sequence')


class SymEnum(object):
    """enumerate() of a symbolic array or range"""

    def __init__(self, x):
        self.x = x

    def __iter__(self):
        raise Unsupported('iteration over a symbolic sequence outside a for loop')


def has_sym(x, depth=0):
    if isinstance(x, (SymBase, SymArray, SymField, SymRecord)):
        return True
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            return any(has_sym(y, depth + 1) for y in x.ravel())
        if x.dtype.names:
            return any(has_sym(x[n], depth + 1) for n in x.dtype.names)
        return False
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def _elem(x, idx):
    """element term of an operand at index terms idx"""
    if isinstance(x, SymField):
        return mkreal(x.arr._read_state(x.arr.state[x.f], idx))
    if isinstance(x, SymArray):
        return mkreal(x._read_state(x.state[None], idx))
    return x


def broadcast(a, b):
    """the shape of an elementwise operation"""
    if len(a) != len(b):
        raise Unsupported('arrays of different dimensions')
    out = []
    for x, y in zip(a, b):
        if x is y or y is T.ONE:
            out.append(x)
        elif x is T.ONE:
            out.append(y)
        elif cur().quick(T.eq(x, y)) is True or simp_int(x) is simp_int(y) or cur().branch(T.eq(x, y)):
            out.append(y)
        elif cur().branch(T.bor(T.eq(x, T.ONE), T.eq(y, T.ONE))):
            raise Unsupported('array of one element')
        else:
            raise ValueError('operands could not be broadcast together')
    return tuple(out)


def lazy(f, *xs):
    """elementwise application giving a new symbolic array"""
    dims = None
    for x in xs:
        if isinstance(x, SymField):
            x = x.arr
        if isinstance(x, SymArray):
            if x.stale:
                raise Unsupported('view of an array written since')
            dims = x.dims if dims is None or dims is x.dims else broadcast(dims, x.dims)
    r = SymArray('lazy', dims, [None])
    snap = []
    for x in xs:
        if isinstance(x, SymField):
            c = x.arr.copy()
            snap.append(SymField(c, x.f))
        elif isinstance(x, SymArray):
            snap.append(x.copy())
        elif isinstance(x, _np.ndarray) and x.ndim:
            raise Unsupported('mixed symbolic and concrete arrays')
        else:
            snap.append(x)

    def at(x, idx):
        d = x.arr.dims if isinstance(x, SymField) else x.dims if isinstance(x, SymArray) else None
        if d is not None and d is not dims and any(a is T.ONE and b is not T.ONE for a, b in zip(d, dims)):
            idx = tuple(T.ZERO if a is T.ONE else k for a, k in zip(d, idx))
        return _elem(x, idx)

    def g(*idx):
        v = f(*[at(x, idx) for x in snap])
        if isinstance(v, SymBool):
            return v.t
        t = lift(v)
        if t is None:
            raise Unsupported('non-finite element')
        return t
    r.state[None] = ('fun', g)
    return r


def truth(m):
    """the result of an operation is an array of truth values"""
    def t(self, *o):
        r = m(self, *o)
        if type(r) is SymArray:
            r.boolean = True
        return r
    return t


def truths(m):
    """so is this one, when the operands are"""
    def t(self, *o):
        r = m(self, *o)
        if type(r) is SymArray and all(getattr(x, 'boolean', isinstance(x, (bool, _np.bool_, SymBool))) for x in (self,) + o):
            r.boolean = True
        return r
    return t


def _arith(cls):
    import operator

    def mk(op, swap):
        def m(self, o):
            if getattr(o, 'complex_array', False):
                return NotImplemented
            if isinstance(o, (complex, _np.complexfloating)):
                from .cplx import CArr
                c = CArr(self, lazy(lambda x: 0.0, self))
                return op(o, c) if swap else op(c, o)
            return lazy((lambda a, b: op(b, a)) if swap else op, self, o)
        return m
    for n, op in (('add', operator.add), ('sub', operator.sub), ('mul', operator.mul),
                  ('truediv', operator.truediv)):
        setattr(cls, '__%s__' % n, mk(op, False))
        setattr(cls, '__r%s__' % n, mk(op, True))
    cls.__pow__ = mk(operator.pow, False)
    cls.__neg__ = lambda self: lazy(operator.neg, self)
    cls.real = property(lambda self: self)
    for n in ('lt', 'le', 'gt', 'ge'):
        setattr(cls, '__%s__' % n, truth(mk(getattr(operator, n), False)))


def _logic(cls):
    """elementwise ==, !=, &, | and ~"""
    import operator

    def compare(op):
        def m(self, o):
            if not isinstance(o, (SymArray, SymField)) and (isinstance(o, (str, SymBool)) or lift(o) is None):
                return NotImplemented
            return lazy(op, self, o)
        return m

    def mk(op):
        def m(self, o):
            return lazy(lambda a, b: SymBool(op(blift(a), blift(b))), self, o)
        return m
    cls.__eq__ = truth(compare(operator.eq))
    cls.__ne__ = truth(compare(operator.ne))
    cls.__hash__ = object.__hash__
    for n, op in (('and', T.band), ('or', T.bor)):
        setattr(cls, '__%s__' % n, truths(mk(op)))
        setattr(cls, '__r%s__' % n, truths(mk(op)))
    cls.__invert__ = truths(lambda self: lazy(lambda a: SymBool(T.bnot(blift(a))), self))

    def bad(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    cls.__bool__ = bad


_arith(SymArray)
_arith(SymField)
_logic(SymArray)
_logic(SymField)


def _inplace(cls):
    """x op= y changes the array itself"""
    import operator

    def mk(op):
        def m(self, o):
            arr, f = (self.arr, self.f) if isinstance(self, SymField) else (self, None)
            assign_field(arr, f, lazy(op, self, o))
            return self
        return m
    for n, op in (('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv)):
        setattr(cls, '__i%s__' % n, mk(op))


def number(v):
    t = lift(v)
    if t is None:
        raise Unsupported('non-finite element')
    return t


def element(arr, idx):
    return number(arr.read_raw(None, idx))


def built(dims, f):
    """the array with elements f(i, j, ...)"""
    r = SymArray('built', list(dims), [None])
    r.state[None] = ('fun', f)
    return r


def surely_same(a, b):
    """whether two arrays certainly are the same"""
    e = cur()
    if len(a.dims) != len(b.dims) or set(a.state) != {None} or set(b.state) != {None}:
        return False
    for x, y in zip(a.dims, b.dims):
        if x is not y and e.quick(T.eq(x, y)) is not True:
            return False
    if a.state[None] is b.state[None]:
        return True
    key = ('surely_same', id(a.state[None]), id(b.state[None]), tuple(c.id for c in e.pc))
    if key in e.cache:
        return e.cache[key][0]

    def one(*idx):
        c = T.eq(element(a, idx), element(b, idx))
        q = e.quick(c)
        if q is None:
            q = e.norm_quick(c, e.pc)
        return T.ZERO if q is True else T.ONE
    r = e.total([(T.ZERO, d) for d in a.dims], one) is T.ZERO
    # the states are kept alive so that their identities stay theirs
    e.cache[key] = (r, a.state[None], b.state[None])
    return r


def count(c):
    """how many elements of a mask are true"""
    return cur().total([(T.ZERO, d) for d in c.dims], lambda *idx: T.ite(mask(c, idx), T.ONE, T.ZERO))


def differ(x, y):
    """whether two elements differ, with the case distinctions outside"""
    if x is y:
        return T.FALSE
    if x.op == 'ite':
        return T.ite(x.args[0], differ(x.args[1], y), differ(x.args[2], y))
    if y.op == 'ite':
        return T.ite(y.args[0], differ(x, y.args[1]), differ(x, y.args[2]))
    return T.bnot(T.eq(x, y))


def same_arrays(a, b):
    """whether no element differs: (number of elements that differ) == 0"""
    if len(a.dims) != len(b.dims):
        return False
    e = cur()
    for x, y in zip(a.dims, b.dims):
        if x is not y and not e.branch(T.eq(x, y)):
            return False
    if None not in a.state or None not in b.state:
        raise Unsupported('comparison of structured arrays')

    def one(*idx):
        d = differ(element(a, idx), element(b, idx))
        q = e.quick(d)
        return T.ONE if q else T.ZERO if q is False else T.ite(d, T.ONE, T.ZERO)
    return bool(SymBool(T.eq(e.total([(T.ZERO, d) for d in a.dims], one), T.ZERO)))


def mask(c, idx):
    t = c._read_state(c.state[None], idx)
    return t if t.sort == 'B' else T.bnot(T.eq(t, T.ZERO))


def chosen(c, new, old):
    """new where c holds, old elsewhere; new has to be a number only there"""
    r = SymArray('lazy', old.dims, [None])

    def g(*idx):
        e = cur()
        m = mask(c, idx)
        q = e.quick(m)
        if q is True:
            return new(idx)
        if q is False:
            return element(old, idx)
        if not e.nobranch:
            return new(idx) if e.branch(m) else element(old, idx)
        a = e.scoped([m], lambda: new(idx))
        b = e.scoped([T.bnot(m)], lambda: element(old, idx))
        return b if a is None else a if b is None else T.ite(m, a, b)
    r.state[None] = ('fun', g)
    return r


def selection(i):
    """the condition of an index made by where(condition), or of a mask"""
    if isinstance(i, tuple) and i and all(getattr(x, 'selected', None) is not None for x in i):
        return i[0].selected
    if getattr(i, 'selected', None) is not None:
        return i.selected
    if type(i) is SymArray and i.boolean and None in i.state and i.state[None][0] != 'flat':
        # the mask itself: the same condition as long as it is not written to
        if i._sel is None or i._sel[0] is not i.state[None]:
            i._sel = i.state[None], i.copy()
        return i._sel[1]
    return None


class Picked(object):
    """the elements of an array of symbolic size that meet a condition"""

    def __init__(self, cond, arr):
        self.cond, self.arr = cond, arr

    @property
    def size(self):
        return mkint(count(self.cond))

    def sum(self):
        return mkreal(cur().total([(T.ZERO, d) for d in self.arr.dims], lambda *idx: element(self.arr, idx),
                                  lambda *idx: mask(self.cond, idx)))

    def copy(self):
        return Picked(self.cond, self.arr.copy())

    def map(self, f):
        return Picked(self.cond, lazy(f, self.arr))

    def median(self):
        """contract of numpy.median: some number, determined by the elements.
        The engine keeps which elements they were"""
        e = cur()
        a = self.copy()
        dims = a.arr.dims
        idx = tuple(T.fresh('s', 'I') for _ in dims)
        con = [x for i, d in zip(idx, dims) for x in (T.le(T.ZERO, i), T.lt(i, d))]

        def loc(k):
            return lambda env, rng: rng.randrange(int(T.evaluate(dims[k], env)))
        loc = [(i, loc(k)) for k, i in enumerate(idx)]
        m = e.scoped(con, lambda: mask(a.cond, idx), loc)
        t = None if m is None else e.scoped(con + [m], lambda: element(a.arr, idx), loc)
        if t is None:
            raise Unsupported('median of nothing')

        def value(env, rng):
            out = []
            for k in _np.ndindex(*[int(T.evaluate(d, env)) for d in dims]):
                env1 = dict(env, **{i.args[0]: x for i, x in zip(idx, k)})
                if T.evaluate(m, env1):
                    out.append(T.evaluate(t, env1))
            if not out:
                raise T.EvalError('median of nothing')
            return float(_np.median(out))
        v = T.fresh('median')
        e.declare_local(v, value)
        e.medians.append((a, mkreal(v)))
        return mkreal(v)


def _picked():
    import operator

    def mk(op, swap):
        def m(self, o):
            if isinstance(o, Picked):
                if o.cond is not self.cond:
                    raise Unsupported('elements picked in different ways')
                o = o.arr
            elif isinstance(o, (SymArray, _np.ndarray)):
                raise Unsupported('picked elements with an array')

            return Picked(self.cond, lazy((lambda a, b: op(b, a)) if swap else op, self.arr, o))
        return m
    for n, op in (('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv)):
        setattr(Picked, '__%s__' % n, mk(op, False))
        setattr(Picked, '__r%s__' % n, mk(op, True))
    Picked.__pow__ = mk(operator.pow, False)
    Picked.__neg__ = lambda self: Picked(self.cond, -self.arr)

    def inplace(op):
        def m(self, o):
            self.arr = op(self, o).arr
            return self
        return m
    for n, op in (('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv)):
        setattr(Picked, '__i%s__' % n, inplace(op))


_picked()


def assign_field(arr, f, v):
    if f not in arr.state:
        raise ValueError('no field of name %s' % f)
    if not arr.writable:
        raise ValueError('output array is read-only')
    arr._unlink()
    if isinstance(v, SymField):
        if v.arr is arr and v.f == f:
            return
        dims, st = v.arr.dims, v.arr.state[v.f]
    elif isinstance(v, SymArray):
        dims, st = v.dims, v.state[None]
    else:
        t = lift(v)
        if t is None:
            raise Unsupported('array assignment')
        arr.state[f] = ('const', t)
        return
    if len(dims) != len(arr.dims) or any(a is not b for a, b in zip(dims, arr.dims)):
        raise Unsupported('assignment of an array of another length')
    arr.state[f] = st


_inplace(SymArray)
_inplace(SymField)


def sym_index(k, n):
    """symbolic index into an axis of concrete length n"""
    e = cur()
    t = k.t
    if t.op == 'const' and t.args[0].denominator == 1:
        return int(t.args[0])
    g = T.band(T.le(T.const(-n), t), T.lt(t, T.const(n)))
    if e.quick(g) is not True:
        e.ensure('index in bounds', g)
    for v in range(n):
        if e.branch(T.eq(t, T.const(v))):
            return v
    for v in range(-n, 0):
        if e.branch(T.eq(t, T.const(v))):
            return v
    raise IndexError('index out of bounds')
