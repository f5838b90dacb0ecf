"""Harness interface, concrete mode: the same contracts evaluated at run time
on the real code (real numpy, real numba)."""
import math
import random
import re
import zlib
import numpy as _np
from .vcbase import Outcome, gen_real, RNG, ArrGen, Skip, uses, adapted


class VC(object):
    mode = 'real'
    symbolic = False

    def __init__(self, env=None, seed=1, unit=None):
        self.given = env or {}
        self.seed = seed
        self.env = {}
        self.np = _np
        self.failures = []
        self.checks = 0
        self.covers = set()
        self.unit = unit
        self.patches = []

    def _rng(self, name):
        return random.Random(zlib.crc32(('%s/%s' % (name, self.seed)).encode()))

    def _get(self, name, gen):
        if name in self.env:
            return self.env[name]
        if name in self.given and not isinstance(self.given[name], dict):
            v = self.given[name]
        else:
            v = gen(self._rng(name), self.env) if getattr(gen, 'env', False) else gen(self._rng(name))
        self.env[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False, gen=None, special=(), real01=False):
        v = float(self._get(name, gen or gen_real(lo, hi, pos, special)))
        if pos and not v > 0:
            raise Skip()
        if lo is not None and not v >= lo:
            raise Skip()
        if hi is not None and not v <= hi:
            raise Skip()
        return v

    def reals(self, names, **k):
        return [self.real(n, **k) for n in names.split()]

    def int(self, name, lo=0, hi=None, gen=None):
        v = int(self._get(name, gen or (lambda r: r.randrange(lo, (hi if hi is not None else lo + 6) + 1))))
        if (lo is not None and v < lo) or (hi is not None and v > hi) or v > 100000:
            raise Skip()
        return v

    def bool(self, name):
        return bool(self._get(name, lambda r: r.randrange(2)))

    def vec(self, name, n, **k):
        return _np.array([self.real('%s_%d' % (name, i), **k) for i in range(n)], dtype='f8')

    def mat(self, name, shape, **k):
        a = _np.zeros(shape)
        for i in _np.ndindex(*shape):
            a[i] = self.real('%s_%s' % (name, '_'.join(map(str, i))), **k)
        return a

    def symarr(self, name, n, fields, dtype=None):
        dims = n if isinstance(n, tuple) else (n,)
        if dtype is None:
            if None in fields:
                dtype = 'f8'
            else:
                dtype = [(f, 'f8') for f in fields]
        a = _np.zeros(dims, dtype=dtype)
        for f, k in fields.items():
            nm = name if f is None else '%s.%s' % (name, f)
            if k.get('of'):
                for i in _np.ndindex(*dims):
                    (a if f is None else a[f])[i] = k['of'](*i)
                continue
            g = k.get('gen') or gen_real(k.get('lo'), k.get('hi'), k.get('pos', False), k.get('special', ()))
            giv = self.given.get(nm)
            seed = giv['arrseed'] if isinstance(giv, dict) else self._rng(nm).randrange(1 << 40)
            ag = ArrGen(seed, g)
            self.env[nm] = ag
            tgt = a if f is None else a[f]
            for i in _np.ndindex(*dims):
                tgt[i] = ag(*i)
        return a

    def build(self, shape, f):
        a = _np.zeros(shape)
        for i in _np.ndindex(*shape):
            a[i] = f(*i)
        return a

    def filled(self, P, *typical):
        pass

    def seq(self, n, f):
        return [f(k) for k in range(n)]

    def ragged(self, name, lo=1):
        vc = self
        gs = {}

        def gen(nm, g):
            if nm not in gs:
                giv = vc.given.get(nm)
                seed = giv['arrseed'] if isinstance(giv, dict) else vc._rng(nm).randrange(1 << 40)
                vc.env[nm] = gs[nm] = ArrGen(seed, g)
            return gs[nm]

        class Rag(object):
            def n(self, k):
                return gen(name + '.n', lambda q: lo + q.randrange(4))(k)

            def arr(self, f, k, **kw):
                g = kw.get('gen') or gen_real(kw.get('lo'), kw.get('hi'), kw.get('pos', False), kw.get('special', ()))
                ag = gen('%s.%s' % (name, f), g)
                return _np.array([ag(k, i) for i in range(self.n(k))])
        return Rag()

    def rng(self, name, whole=False):
        return RNG(self, name, whole)

    def assume(self, c):
        if not c:
            raise Skip()

    def case(self, c):
        return bool(c)

    def fail(self, name, detail=''):
        self.failures.append((name, detail))

    def ensure(self, name, c):
        self.checks += 1
        if not c:
            self.fail(name, 'false')

    true = ensure

    def lt(self, name, a, b):
        self.checks += 1
        if not a < b:
            self.fail(name, '%r < %r' % (a, b))

    def le(self, name, a, b, tol=1e-9):
        self.checks += 1
        if not a <= b + tol * (abs(a) + abs(b)) + 1e-300:
            self.fail(name, '%r <= %r' % (a, b))

    def eq(self, name, a, b, tol=1e-7, scale=0.0):
        if tol is None:
            tol = 1e-7
        if scale is None:
            scale = 0.0
        if isinstance(a, (_np.ndarray, list, tuple)) or isinstance(b, (_np.ndarray, list, tuple)):
            a = _np.asarray(a)
            b = _np.asarray(b)
            if a.shape != b.shape:
                try:
                    a, b = _np.broadcast_arrays(a, b)
                except ValueError:
                    self.checks += 1
                    self.fail(name + ' (shape)', '%r %r' % (a.shape, b.shape))
                    return
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                self.eq('%s[%d]' % (name, i), x, y, tol, scale)
            return
        self.checks += 1
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (a is b or (isinstance(a, str) and isinstance(b, str) and a == b)):
                self.fail(name, '%r == %r' % (a, b))
            return
        if a != a or b != b:
            if not (a != a and b != b):
                self.fail(name, '%r == %r' % (a, b))
            return
        if a == b:
            return
        if not abs(a - b) <= tol * max(abs(a), abs(b), scale) + 1e-11 * tol:
            self.fail(name, '%r == %r' % (a, b))

    def isnan(self, name, a):
        self.checks += 1
        if not (a is not None and a != a):
            self.fail(name, '%r is nan' % (a,))

    def finite(self, name, a):
        self.checks += 1
        if not _np.all(_np.isfinite(_np.asarray(a, dtype=float))):
            self.fail(name, '%r finite' % (a,))

    def implies(self, a, b):
        return (not a) or bool(b)

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def when(self, c, f):
        return f() if c else 0.0

    def counted(self, total, size, cond, bounds=False):
        return bool(cond)

    def ite(self, c, a, b):
        return a if c else b

    def quot(self, a, b):
        return a / b

    def sum(self, n, f, lo=0):
        return math.fsum([float(f(k)) for k in range(int(lo), int(n))])

    def at(self, name, n):
        if n <= 0:
            raise Skip()
        k = self.given.get('at!' + name)
        if k is None or not (0 <= k < n):
            k = self._rng('at!' + name).randrange(0, int(n))
        self.env['at!' + name] = k
        return int(k)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as x:
            if isinstance(x, TypeError) and internal(f) and bad_signature(f, a, k):
                # an internal function with other arguments than the contract is about
                raise Skip()
            return Outcome(None, x)

    def cover(self, name):
        self.covers.add(name)

    def fn(self, name, x):
        with _np.errstate(all='ignore'):
            return getattr(_np, name)(x)

    def deriv(self, f, x):
        h = 1e-4 * max(1.0, abs(x))
        return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)

    def have(self, name, c):
        pass

    def ufun(self, name, pyf, facts=None):
        return pyf

    def code(self, f):
        """the function itself rather than its compiled form: callees can be replaced"""
        return getattr(f, 'py_func', f)

    def bare(self, cls):
        """an object of this class without the state its constructor gives"""
        o = cls.__new__(cls)
        self.bares = getattr(self, 'bares', []) + [o]
        return o

    def put(self, obj, name, value):
        """replace a private attribute; when the code has none of that name nothing is decided"""
        if not (hasattr(obj, name) or uses(type(obj), name)):
            raise Skip()
        setattr(obj, name, value)

    def fresh(self, name, pos=False):
        self.nfresh = getattr(self, 'nfresh', 0) + 1
        return self.real('f!%s!%d' % (name, self.nfresh), pos=pos)

    def contract(self, attr, pre=None, post=None, result=None, why=''):
        pass

    def patch(self, mod, attr, f):
        self.patches.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, adapted(getattr(mod, attr), f))

    def unpatch(self):
        for mod, attr, v in reversed(self.patches):
            setattr(mod, attr, v)
        self.patches = []

    def opaque_fexp(self):
        import ngmix.fastexp_nb as m
        self.fexp = m.fexp


def internal(f):
    nm, mod = getattr(f, '__name__', ''), getattr(f, '__module__', '') or ''
    return (nm.startswith('_') and not nm.startswith('__')) or mod.endswith('_nb')


def bad_signature(f, a, k):
    import inspect
    try:
        inspect.signature(getattr(f, 'py_func', f)).bind(*a, **k)
        return False
    except TypeError:
        return True
    except ValueError:
        return False


def run_once(unit, env=None, seed=1):
    """-> (status, failures, env, checks, covers); status in ok/skip/fail"""
    vc = VC(env, seed, unit)
    try:
        with _np.errstate(all='ignore'):
            unit.run(vc)
    except Skip:
        return 'skip', [], vc
    except Exception as x:
        import traceback, types
        if isinstance(x, AttributeError) and any(getattr(x, 'obj', None) is o for o in getattr(vc, 'bares', ())):
            return 'skip', [], vc
        if isinstance(x, TypeError) and '<locals>' in str(x) and 'argument' in str(x):
            # a stand-in called in another way than the contract foresees
            return 'skip', [], vc
        if isinstance(x, ImportError) or (isinstance(x, AttributeError) and (
                isinstance(getattr(x, 'obj', None), types.ModuleType) or str(getattr(x, 'name', None)).startswith('_')
                ) and x.__traceback__.tb_next is not None) or (isinstance(x, TypeError) and re.search(
                'required positional arg|positional arguments? but|unexpected keyword|missing a required arg|'
                'not enough arguments|too many (positional )?arguments', str(x))):
            # the contract names something the module does not have: not decided here
            tb, last = x.__traceback__, ''
            while tb is not None:
                fn = tb.tb_frame.f_code.co_filename
                if '/ngmix/' in fn or '/harness/' in fn or last == '':
                    last = fn
                tb = tb.tb_next
            if '/ngmix/' not in last:
                return 'skip', [], vc
        vc.fail('no unexpected exception', traceback.format_exc()[-1200:])
    finally:
        vc.unpatch()
    return ('fail' if vc.failures else 'ok'), vc.failures, vc
