"""Complex numbers with symbolic parts, and exact small Fourier transforms."""
import types
import numpy as _np
import scipy.fft as _fft
from . import terms as T
from .engine import Unsupported, cur
from .sym import Sym, SymBool, SymBase, SArr, SymArray, SymField, blift, is_num, s_sqrt, has_sym, divide, lift, built, Picked, selection
from . import sym as _sym


def parts(x):
    if isinstance(x, CSym):
        return x.re, x.im
    if isinstance(x, (complex, _np.complexfloating)):
        return x.real, x.imag
    if isinstance(x, SymBool) or isinstance(x, Sym) or is_num(x):
        return x, 0.0
    return None


def mul(a, b):
    # exact zeros and ones keep terms small
    if not isinstance(a, SymBase) and a == 0 or not isinstance(b, SymBase) and b == 0:
        return 0.0
    return a * b


class CSym(SymBase):
    __slots__ = ('re', 'im')
    __array_priority__ = -1000.0

    def __init__(self, re, im=0.0):
        self.re = re
        self.im = im

    def _bin(self, o, f, swap=False):
        if isinstance(o, (_np.ndarray, SymArray, SymField)):
            return NotImplemented
        b = parts(o)
        if b is None:
            return NotImplemented
        a = (self.re, self.im)
        if swap:
            a, b = b, a
        return f(a, b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: CSym(a[0] + b[0], a[1] + b[1]))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: CSym(a[0] - b[0], a[1] - b[1]))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: CSym(a[0] - b[0], a[1] - b[1]), True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: CSym(mul(a[0], b[0]) - mul(a[1], b[1]), mul(a[0], b[1]) + mul(a[1], b[0])))

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        if not isinstance(b[1], SymBase) and b[1] == 0:
            return CSym(a[0] / b[0], a[1] / b[0])
        d = b[0] * b[0] + b[1] * b[1]
        return CSym((mul(a[0], b[0]) + mul(a[1], b[1])) / d, (mul(a[1], b[0]) - mul(a[0], b[1])) / d)

    def __truediv__(self, o):
        return self._bin(o, self._div)

    def __rtruediv__(self, o):
        return self._bin(o, self._div, True)

    def __neg__(self):
        return CSym(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        if not isinstance(self.im, SymBase) and self.im == 0:
            return abs(self.re)
        if not isinstance(self.re, SymBase) and self.re == 0:
            return abs(self.im)
        return s_sqrt(self.re * self.re + self.im * self.im)

    def __pow__(self, n, m=None):
        if isinstance(n, (int, float)) and n == int(n) and n >= 0:
            r = CSym(1.0)
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported('power of a complex number')

    def _same(self, o):
        b = parts(o)
        if b is None:
            return False
        return SymBool(T.band(blift(self.re == b[0]), blift(self.im == b[1])))

    def __eq__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        return self._same(o)

    def __ne__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        r = self._same(o)
        return SymBool(T.bnot(blift(r)))

    def __bool__(self):
        return bool(self != 0)

    __hash__ = None

    def conjugate(self):
        return CSym(self.re, -self.im)

    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def copy(self):
        return self

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def exp(self):
        if not isinstance(self.re, SymBase) and self.re == 0:
            from . import shims
            return CSym(shims.numpy.cos(self.im), shims.numpy.sin(self.im))
        raise Unsupported('exp of a complex number')

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __lt__(self, o):
        raise TypeError("'<' not supported between instances of 'complex'")

    __le__ = __gt__ = __ge__ = __lt__

    def __repr__(self):
        return '<%r + %r j>' % (self.re, self.im)


class CArr(object):
    """array of complex numbers of symbolic length: two symbolic arrays"""
    complex_array = True

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def shape(self):
        return self.re.shape

    @property
    def size(self):
        return self.re.size

    @property
    def ndim(self):
        return self.re.ndim

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return CArr(self.re, -self.im)

    conj = conjugate

    def copy(self):
        return CArr(self.re.copy(), self.im.copy())

    def sum(self):
        return CSym(self.re.sum(), self.im.sum())

    @staticmethod
    def two(o):
        if isinstance(o, CArr):
            return o.re, o.im
        if isinstance(o, (SymArray, SymField, Picked)):
            return o, 0.0
        return parts(o)

    def __mul__(self, o):
        b = self.two(o)
        if b is None:
            return NotImplemented
        if not isinstance(b[1], (SymBase, SymArray, SymField, Picked)) and b[1] == 0:
            return CArr(self.re * b[0], self.im * b[0])
        return CArr(self.re * b[0] - self.im * b[1], self.re * b[1] + self.im * b[0])

    __rmul__ = __mul__

    def __add__(self, o):
        b = self.two(o)
        return NotImplemented if b is None else CArr(self.re + b[0], self.im + b[1])

    __radd__ = __add__

    def __sub__(self, o):
        b = self.two(o)
        return NotImplemented if b is None else CArr(self.re - b[0], self.im - b[1])

    def __rsub__(self, o):
        b = self.two(o)
        return NotImplemented if b is None else CArr(-(self.re - b[0]), -(self.im - b[1]))

    def __neg__(self):
        return CArr(-self.re, -self.im)

    def inverse(self):
        d = self.re * self.re + self.im * self.im
        return CArr(self.re / d, -self.im / d)

    def __truediv__(self, o):
        if isinstance(o, CArr):
            return self * o.inverse()
        if isinstance(o, (SymArray, SymField, Picked)):
            return CArr(self.re / o, self.im / o)
        b = parts(o)
        if b is None:
            return NotImplemented
        return self * (CSym(1.0) / CSym(*b))

    def __rtruediv__(self, o):
        return self.inverse() * o

    def __abs__(self):
        from .sym import lazy
        d = self.re * self.re + self.im * self.im
        return d.map(s_sqrt) if isinstance(d, Picked) else lazy(s_sqrt, d)

    def __len__(self):
        raise Unsupported('len')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic array')

    def __getitem__(self, k):
        if selection(k) is not None:
            return CArr(self.re[k], self.im[k])
        return CSym(self.re[k], self.im[k])

    def __setitem__(self, k, v):
        b = self.two(v)
        if b is None or selection(k) is None:
            raise Unsupported('assignment to elements of a complex array')
        self.re[k] = b[0]
        self.im[k] = b[1]

    def _becomes(self, r):
        if isinstance(self.re, Picked):
            self.re, self.im = r.re, r.im
        else:
            # both parts first: the new ones are made of the old
            re, im = r.re.copy(), r.im.copy()
            self.re[:] = re
            self.im[:] = im
        return self

    def __imul__(self, o):
        return self._becomes(self * o)

    def __itruediv__(self, o):
        return self._becomes(self / o)

    def __iadd__(self, o):
        return self._becomes(self + o)

    def __isub__(self, o):
        return self._becomes(self - o)


def creal(x):
    return x.re if isinstance(x, CSym) else x.real if isinstance(x, (complex, _np.complexfloating)) else x


def cimag(x):
    return x.im if isinstance(x, CSym) else x.imag if isinstance(x, (complex, _np.complexfloating)) else 0.0


def conj1(x):
    return x.conjugate()


def roots(n):
    """exp(-2 pi i k / n)"""
    q = []
    for k in range(n):
        # exact at the multiples of a quarter turn
        if 4 * k % n == 0:
            q.append([1.0, -1j, -1.0, 1j][4 * k // n])
        else:
            q.append(complex(_np.cos(2 * _np.pi * k / n), -_np.sin(2 * _np.pi * k / n)))
    return q


def ctimes(w, x):
    if w == 1:
        return x
    if w == -1:
        return -x
    return x * w


def fftn(x, *a, **k):
    if not has_sym(x):
        r = _fft.fftn(_np.asarray(_tofloat(x)), *a, **k)
        out = _np.empty(r.shape, dtype=object)
        for i in _np.ndindex(*r.shape):
            out[i] = CSym(float(r[i].real), float(r[i].imag))
        return out.view(SArr)
    if a or k:
        raise Unsupported('fftn')
    x = _np.asarray(x, dtype=object)
    if x.ndim != 2 or max(x.shape) > 8:
        raise Unsupported('fftn')
    out = _np.empty(x.shape, dtype=object)
    wr, wc = roots(x.shape[0]), roots(x.shape[1])
    for i, j in _np.ndindex(*x.shape):
        s = CSym(0.0)
        for p, q in _np.ndindex(*x.shape):
            v = x[p, q]
            if not isinstance(v, SymBase) and v == 0:
                continue
            w = wr[i * p % x.shape[0]] * wc[j * q % x.shape[1]]
            s = s + ctimes(w, CSym(*parts(v)))
        out[i, j] = s
    return out.view(SArr)


def _tofloat(x):
    x = _np.asarray(x)
    if x.dtype == object:
        return _np.array(x.tolist())
    return x


def fftfreq(n, d=1.0):
    if isinstance(n, SymBase):
        # contract: some frequency for each index (which one is of no matter to the code that uses it)
        t = lift(n)
        e = cur()
        e.declare_fn('fftfreq', lambda r: lambda k, m: float(k if 2 * k < m else k - m) / float(m))
        return built([t], lambda k: T.fn('fftfreq', k, t)) / d if d != 1 else built([t], lambda k: T.fn('fftfreq', k, t))
    return _fft.fftfreq(n, d)


fft = types.ModuleType('scipy.fft')


def _other(name):
    r = getattr(_fft, name)
    if not callable(r):
        return r

    def f(*a, **k):
        if any(has_sym(x) for x in a):
            raise Unsupported('scipy.fft.' + name)
        return r(*[_tofloat(x) if isinstance(x, _np.ndarray) else x for x in a], **k)
    return f


fft.__getattr__ = _other
fft.fftn = fftn
fft.fft2 = fftn
fft.fftfreq = fftfreq
