"""What is common to the two modes in which harnesses run."""
import math
import random


class Outcome(object):
    """result of a call that may raise"""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def name(self):
        return None if self.exc is None else type(self.exc).__name__


class Skip(BaseException):
    """the generated input does not satisfy the precondition"""


class ContractFailure(Exception):
    pass


class ArrGen(object):
    """element generator of a random array; reproducible from (seed, name)"""

    def __init__(self, seed, gen):
        self.seed = seed
        self.gen = gen
        self.memo = {}

    def __call__(self, *idx):
        v = self.memo.get(idx)
        if v is None:
            r = random.Random(hash((self.seed,) + tuple(int(i) for i in idx)))
            v = self.memo[idx] = self.gen(r)
        return v


def gen_real(lo=None, hi=None, pos=False, special=()):
    def gen(r):
        if special and r.random() < 0.25:
            return r.choice(special)
        if lo is not None and hi is not None:
            x = lo + (hi - lo) * r.random()
            return x
        if pos:
            return math.exp(r.gauss(0, 0.8))
        if lo is not None:
            return lo + math.exp(r.gauss(0, 0.8))
        if hi is not None:
            return hi - math.exp(r.gauss(0, 0.8))
        u = r.random()
        if u < 0.04:
            return 0.0
        if u < 0.08:
            return float(r.choice([-1, 1, 2, -2]))
        return r.gauss(0, 1.5)
    return gen


class RNG(object):
    """stands for a numpy RandomState: every draw is an arbitrary value of the
    distribution's support, the same in both modes"""

    def __init__(self, vc, name, whole=False):
        self.vc = vc
        self.name = name
        # arrays are drawn (and logged) as arrays, of any size
        self.whole = whole
        self.n = 0
        self.log = []

    def _draw(self, kind):
        nm = '%s_%s%d' % (self.name, kind, self.n)
        self.n += 1
        if kind == 'u':
            v = self.vc.real(nm, gen=lambda r: r.random(), real01=True)
            self.vc.assume(v >= 0)
            self.vc.assume(v < 1)
        else:
            v = self.vc.real(nm, gen=lambda r: r.gauss(0, 1))
        self.log.append(v)
        return v

    def _many(self, kind, size, f):
        if size is None:
            return f(self._draw(kind))
        if self.whole:
            nm = '%s_%s%d' % (self.name, kind, self.n)
            self.n += 1
            shape = tuple(size) if isinstance(size, (tuple, list)) else (size,)
            of = dict(gen=lambda r: r.gauss(0, 1)) if kind == 'n' else dict(lo=0, hi=1, gen=lambda r: r.random())
            z = self.vc.symarr(nm, shape, {None: of})
            self.log.append(z.copy())
            return f(z)
        shape = tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
        a = self.vc.np.zeros(shape)
        import numpy as np
        for i in np.ndindex(*shape):
            a[i] = f(self._draw(kind))
        return a

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._many('u', size, lambda u: low + (high - low) * u)

    def random(self, size=None):
        return self._many('u', size, lambda u: u)

    random_sample = random

    def rand(self, *size):
        return self._many('u', size if size else None, lambda u: u)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (hasattr(loc, '__len__') or hasattr(scale, '__len__')):
            import numpy as np
            shp = np.broadcast(np.asarray(loc, dtype=object), np.asarray(scale, dtype=object)).shape
            return loc + scale * self._many('n', shp, lambda z: z)
        return self._many('n', size, lambda z: loc + scale * z)

    def standard_normal(self, size=None):
        return self._many('n', size, lambda z: z)

    def randn(self, *size):
        return self._many('n', size if size else None, lambda z: z)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        np = self.vc.np
        return self._many('n', size, lambda z: np.exp(mean + sigma * z))


def uses(cls, name):
    """does the code of this class, or of one it inherits from, name this attribute?"""
    import types

    def inside(c):
        if name in c.co_names or name in c.co_consts:
            return True
        return any(inside(k) for k in c.co_consts if isinstance(k, types.CodeType))
    for k in cls.__mro__:
        for v in vars(k).values():
            fs = (v.fget, v.fset) if isinstance(v, property) else (getattr(v, '__func__', v),)
            for f in fs:
                c = getattr(f, '__code__', None)
                if c is not None and inside(c):
                    return True
    return False


def adapted(orig, f):
    """the stand-in f for a function, called like that function: its parameters
    by position whatever way the caller passes them"""
    import inspect
    import types
    if not isinstance(f, types.FunctionType):
        return f
    try:
        so, sf = inspect.signature(getattr(orig, 'py_func', orig)), inspect.signature(f)
    except (TypeError, ValueError):
        return f

    def stand_in(*a, **k):
        try:
            sf.bind(*a, **k)
        except TypeError:
            try:
                b = so.bind(*a, **k)
                sf.bind(*b.args, **b.kwargs)
                a, k = b.args, b.kwargs
            except TypeError:
                pass
        return f(*a, **k)
    stand_in.__name__ = f.__name__
    return stand_in
