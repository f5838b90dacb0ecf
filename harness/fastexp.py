"""The fast exponential."""
import math
from fractions import Fraction
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix, nb, pix, NORMS

BOUND = {'exp3': 5e-3, 'exp4': 5e-4, 'exp5': 4e-5, 'fexp': 4e-5}


def em():
    import ngmix.fastexp_nb as m
    return m


class Table(object):
    """the lookup table; an index outside it (numpy would wrap, numba would read
    elsewhere) is an obligation"""

    def __init__(self, vc, a):
        self.vc = vc
        self.a = a

    def __getitem__(self, i):
        i = int(i.__index__())
        ok = 0 <= i < len(self.a)
        self.vc.true('index inside the table', ok)
        return self.a[i] if ok else 0.0

    def __len__(self):
        return len(self.a)


def taylor(f, n):
    """sum of f^i/i! for i < n"""
    t = 1.0
    for i in range(n - 1, 0, -1):
        t = 1.0 + f * t / i
    return t


@unit('C23', cases=[(f, k) for f in BOUND for k in range(0, -16, -1)], samples=60, cost=3, budget=120)
def accuracy(vc, case):
    """relative error over the whole range of the table, one unit per entry"""
    fname, k = case
    M = em()
    x = vc.real('x', lo=-15.0, hi=0.0, gen=lambda r: max(-15.0, min(0.0, k + r.choice([-.5, .5, r.uniform(-.5, .5)]))))
    vc.assume(x >= k - 0.5)
    vc.assume(x <= k + 0.5)
    fn = getattr(M, fname)
    if vc.symbolic:
        vc.patch(M, '_EXP_LOOKUP', Table(vc, M._EXP_LOOKUP))
        f = x - k
        # y = exp(f): Taylor polynomial of degree 8 with the Lagrange remainder
        # for |f| <= 1/2 (|f|^9 e^(1/2) / 9! < 1e-8)
        t = taylor(f, 9)
        y = vc.ufun('exp_f', math.exp)(f)
        vc.assume(y >= t - 1e-8)
        vc.assume(y <= t + 1e-8)
        want = y * math.exp(k)
    else:
        want = math.exp(x)
    got = fn(x)
    b = BOUND[fname]
    vc.le('above', got, want * (1 + b))
    vc.le('below', want * (1 - b), got)
    vc.lt('positive', 0, got)
    vc.cover('end')


@unit('C23', samples=4)
def table(vc):
    """entries and limits"""
    M = em()
    n = len(M._EXP_LOOKUP)
    vc.true('size', n == len(M._EXP_IVALS))
    for i in range(n):
        vc.true('position', int(M._EXP_IVALS[i]) == int(M._EXP_I0) + i)
        e = math.exp(int(M._EXP_IVALS[i]))
        vc.true('entry', abs(float(M._EXP_LOOKUP[i]) - e) <= 1e-15 * e)
    vc.true('covers the range used', int(M._EXP_I0) <= -15 and int(M._EXP_I0) + n - 1 >= 0)
    vc.true('cut-off', 0 < float(M.FASTEXP_MAX_CHI2) and -0.5 * float(M.FASTEXP_MAX_CHI2) >= -15)
    vc.cover('end')


def guarded(vc, mod, nm='fexp'):
    """a stand-in for the exponential that obliges its caller to keep to the range"""
    import math

    def f(x):
        vc.true('argument above the cut-off', x > -12.5)
        vc.true('argument not positive', x <= 0)
        return vc.np.exp(x)
    vc.patch(mod, nm, f)


@unit('C23', samples=60)
def callers(vc):
    """mixture evaluation passes only arguments inside the range, any number of components"""
    M = nb()
    if vc.symbolic:
        guarded(vc, M)
    n = vc.int('n', 1)
    gm = sym_gmix(vc, 'g', n, **NORMS)
    px = pix(vc, 'px', vc.int('m', 1))
    v = M.gmix_eval_pixel_fast(gm, px[0])
    vc.finite('value', v)
    vc.cover('end')


@unit('C23', samples=60)
def caller_one(vc):
    M = nb()
    if vc.symbolic:
        guarded(vc, M)
    gm = sym_gmix(vc, 'g', 1, **NORMS)
    px = pix(vc, 'px', 1)
    v = M.gauss2d_eval_pixel_fast(gm[0], px[0])
    vc.finite('value', v)
    vc.cover('end')


@unit('C23', samples=60, bound='3 arguments')
def arrays(vc):
    """the array form gives each element its own value"""
    M = em()
    x = vc.vec('x', 3, lo=-15.0, hi=0.0)
    if vc.symbolic:
        f = vc.ufun('value', math.exp)
        vc.patch(M, 'fexp', f)
    a = M.fexp_arr(x)
    for i in range(3):
        vc.eq('element', a[i], M.fexp(x[i]), tol=0)
    vc.cover('end')
