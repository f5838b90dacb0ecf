"""Least squares with bounded parameters."""
from pyvc.unit import unit

KINDS = ['none', 'lower', 'upper', 'both']


def mod():
    import ngmix.fitting.leastsqbound as m
    return m


def pick(vc, name, values):
    """one of the values; a case each"""
    i = vc.int(name, 0, len(values) - 1)
    for k, v in enumerate(values[:-1]):
        if vc.case(i == k):
            return v
    return values[-1]


def bound(vc, kind, nm=''):
    lo = vc.real('lo' + nm) if kind in ('lower', 'both') else None
    if kind == 'both':
        hi = lo + vc.real('width' + nm, pos=True)
    else:
        hi = vc.real('hi' + nm) if kind == 'upper' else None
    return (lo, hi)


def inside(vc, b, x, nm='inside the bounds'):
    lo, hi = b
    if lo is not None:
        vc.le('%s (lower)' % nm, lo, x)
    if hi is not None:
        vc.le('%s (upper)' % nm, x, hi)


def external(vc, b, nm=''):
    """an arbitrary parameter inside its bounds, the bounds included"""
    lo, hi = b
    if lo is None and hi is None:
        return vc.real('x' + nm)
    d = vc.real('d' + nm, gen=lambda r: r.choice([0.0, 1.0, r.random(), r.random(), r.random()]), lo=0.0)
    if lo is not None and hi is not None:
        vc.assume(d <= 1)
        return lo + d * (hi - lo)
    return lo + d if lo is not None else hi - d


@unit('C16', cases=KINDS, samples=200)
def range_(vc, kind):
    """every internal value is mapped inside the bounds, and every parameter inside them is its own round trip"""
    M = mod()
    b = bound(vc, kind)
    i2e, e2i = M._internal2external_lambda(b), M._external2internal_lambda(b)
    x = vc.real('i')
    inside(vc, b, i2e(x))
    e = external(vc, b)
    i = e2i(e)
    vc.finite('internal value', i)
    vc.eq('there and back', i2e(i), e, scale=10)
    vc.cover('end')


@unit('C16', cases=[(a, b) for a in KINDS for b in KINDS], samples=40)
def vectors(vc, case):
    """each parameter is mapped with its own bounds"""
    M = mod()
    bs = [bound(vc, k, str(i)) for i, k in enumerate(case)]
    f, g = M._internal2external_func(bs), M._external2internal_func(bs)
    xi = vc.vec('i', 2)
    keep = xi.copy()
    xe = f(xi)
    vc.true('size', len(xe) == 2)
    for i in range(2):
        vc.eq('external', xe[i], M._internal2external_lambda(bs[i])(xi[i]), tol=1e-14)
        inside(vc, bs[i], xe[i])
    vc.eq('argument unchanged', xi, keep, tol=0)
    e = vc.np.array([external(vc, b, str(k)) for k, b in enumerate(bs)])
    ek = e.copy()
    r = g(e)
    for i in range(2):
        vc.eq('internal', r[i], M._external2internal_lambda(bs[i])(e[i]), tol=1e-14)
    vc.eq('there and back', f(r), ek, scale=10)
    vc.eq('argument unchanged', e, ek, tol=0)
    # derivative of the mapping
    d = M._internal2external_grad(xi, bs)
    for i in range(2):
        vc.eq('derivative', d[i], vc.deriv(M._internal2external_lambda(bs[i]), xi[i]), tol=1e-5, scale=1)
    vc.cover('end')


class Minpack(object):
    """the minimiser: it may evaluate the function it is given anywhere and
    return any solution and any factorisation"""

    def __init__(self, vc, n, m, func, perm, status):
        self.status = status
        self.vc = vc
        self.n = n
        self.m = m
        self.func = func
        self.perm = perm
        self.calls = 0

    def _lmdif(self, f, x0, args, full_output, *a):
        return self.run(f, x0, args, full_output)

    def _lmder(self, f, df, x0, args, full_output, col_deriv, *a):
        vc = self.vc
        p = vc.vec('dprobe', self.n)
        self.dp = p
        self.jac = df(p.copy(), *args)
        return self.run(f, x0, args, full_output)

    def run(self, f, x0, args, full_output):
        vc = self.vc
        self.calls += 1
        self.x0 = x0
        vc.true('arguments passed on', args == (7,))
        p = vc.vec('probe', self.n)
        keep = p.copy()
        self.val = f(p, *args)
        vc.eq('argument unchanged', p, keep, tol=0)
        self.xi = vc.vec('xi', self.n)
        self.info = pick(vc, 'info', self.status)
        if not full_output:
            return self.xi.copy(), self.info
        self.fjac = vc.mat('fjac', (self.n, self.m))
        d = dict(nfev=3, fvec=vc.vec('fvec', self.m), fjac=self.fjac.copy(), ipvt=vc.np.array(self.perm))
        return self.xi.copy(), d, self.info


def start(vc, M, bs, n, m, perm, status):
    seen = []

    def func(x, arg):
        for i in range(n):
            inside(vc, bs[i], x[i], 'evaluated inside the bounds')
        vc.true('argument', arg == 7)
        seen.append(x)
        return vc.vec('y%d' % len(seen), m)
    mp = Minpack(vc, n, m, func, perm, status)
    vc.patch(M, '_minpack', mp)
    if vc.symbolic:
        vc.patch(M, '_check_func', lambda c, nm, f, x, args, *r: (f(x, *args).shape, float))
    return mp, func


@unit('C16', cases=[(a, b, full) for a in KINDS for b in KINDS for full in (0, 1)], samples=20, budget=120, cost=3)
def evaluations(vc, case):
    """the user function is evaluated inside the bounds only, wherever the minimiser looks; the solution is the external one"""
    M = mod()
    a, b, full = case
    bs = [bound(vc, a, '0'), bound(vc, b, '1')]
    n = 2
    mp, func = start(vc, M, bs, n, 3, (1, 2), [1, 5][full:])
    x0 = vc.np.array([external(vc, bs[i], str(i)) for i in range(n)])
    keep = x0.copy()
    if full:
        # the factorisation is not the subject here
        g = vc.vec('g', n, pos=True)
        vc.patch(M, '_internal2external_grad', lambda xi, b: g)
    ret = M.leastsqbound(func, x0, args=7, bounds=bs, full_output=full)
    x = ret[0]
    vc.true('one run', mp.calls == 1)
    vc.true('status', ret[-1] == mp.info)
    vc.eq('guess unchanged', x0, keep, tol=0)
    i2e = M._internal2external_func(bs)
    vc.eq('starts at the guess', i2e(mp.x0), keep)
    vc.eq('solution', x, i2e(mp.xi), tol=0)
    for i in range(n):
        inside(vc, bs[i], x[i], 'solution inside the bounds')
    vc.cover('end')


@unit('C16', cases=[(1, 2), (2, 1), (0, 1), (1, 0)], real=False)
def covariance(vc, perm):
    """the covariance is the internal one through the derivative of the mapping (which is decided by vectors)"""
    M = mod()
    n, m = 2, 3
    bs = [(None, None)] * n
    mp, func = start(vc, M, bs, n, m, perm, list(range(1, 9)))
    g = vc.vec('g', n)
    for i in range(n):
        vc.assume(g[i] * g[i] > 0)

    def grad(xi, b):
        vc.true('derivative at the solution', b is bs)
        vc.eq('derivative at the solution', xi, mp.xi, tol=0)
        return g.copy()
    vc.patch(M, '_internal2external_grad', grad)
    x, cov, info, msg, ier = M.leastsqbound(func, vc.vec('x0', n), args=7, bounds=bs, full_output=1)
    vc.true('status', ier == mp.info)
    vc.true('counts', info['nfev'] == 3)
    if ier > 4:
        vc.true('no covariance of a failure', cov is None)
        vc.cover('failure')
        return
    R = mp.fjac
    # internal covariance: inverse of (R P)^T (R P), R the upper triangle
    r00, r01, r11 = R[0, 0], R[1, 0], R[1, 1]
    c00, c01, c11 = r00 * r00, r00 * r01, r01 * r01 + r11 * r11
    A = (c00, c01, c11) if perm[0] < perm[1] else (c11, c01, c00)    # pivots counted from one or from zero
    det = A[0] * A[2] - A[1] * A[1]
    if vc.case(det == 0):
        return
    vc.true('covariance', cov is not None)
    want = [[A[2], -A[1]], [-A[1], A[0]]]
    for i in range(n):
        for j in range(n):
            vc.eq('covariance', cov[i, j] * det, want[i][j] * g[i] * g[j])
    vc.cover('end')


@unit('C16', cases=[(a, b) for a in KINDS for b in KINDS], samples=40, prove=False)
def fits(vc, case):
    """whole fits with the real minimiser"""
    import numpy as np
    M = mod()
    bs = [bound(vc, k, str(i)) for i, k in enumerate(case)]
    t = vc.vec('t', 2)
    x0 = np.array([external(vc, b, str(i)) for i, b in enumerate(bs)])
    seen = []

    def func(x):
        seen.append(np.array(x))
        return np.array([x[0] - t[0], 2 * (x[1] - t[1]), 0.3 * (x[0] + x[1] - t[0] - t[1]), 0.1])
    with np.errstate(all='ignore'):
        r = vc.call(M.run_leastsq, func, x0, 0, bounds=bs)
    vc.true('ran', r.ok)
    for x in seen:
        for i in range(2):
            inside(vc, bs[i], x[i], 'evaluated inside the bounds')
    if r.value['flags'] == 0:
        for i in range(2):
            inside(vc, bs[i], r.value['pars'][i], 'solution')
    vc.cover('end')


@unit('C16', cases=[(a, b, c) for a in KINDS for b in KINDS for c in KINDS], samples=8, prove=False)
def normal_equations(vc, case):
    """the covariance of a linear problem, from the real minimiser and any order of the pivots"""
    import numpy as np
    M = mod()
    n = len(case)
    lims = dict(none=(None, None), lower=(-9.0, None), upper=(None, 9.0), both=(-9.0, 8.0))
    bs = [lims[k] for k in case]
    t = np.array([vc.real('t%d' % i, -2.0, 2.0) for i in range(n)])
    size = [10.0 ** vc.real('s%d' % i, -1.5, 1.5) for i in range(n)]
    A = np.array([[vc.real('a%d_%d' % (i, j), -1.0, 1.0) for j in range(n)] for i in range(5)])
    A[:n] += 2 * np.eye(n)
    A = A * np.array(size)
    y = A.dot(t)
    x, cov, info, msg, ier = M.leastsqbound(lambda x: A.dot(x) - y, t + 0.3, bounds=bs, full_output=True)
    if ier in (1, 2, 3, 4) and abs(x - t).max() < 1e-3:
        want = np.linalg.inv(A.T.dot(A))
        d = np.sqrt(np.diag(want))
        for i in range(n):
            for j in range(n):
                vc.eq('covariance', cov[i, j] / d[i] / d[j], want[i, j] / d[i] / d[j], tol=1e-3, scale=1)
    vc.cover('end')


@unit('C16', cases=[1, 3], samples=10)
def wrong_number(vc, n):
    """one pair of bounds for each parameter"""
    M = mod()
    bs = [(None, None)] * n
    r = vc.call(M.leastsqbound, lambda x: vc.np.zeros(3), vc.np.zeros(2), bounds=bs, full_output=1)
    vc.true('refused', not r.ok and r.name == 'ValueError')
    vc.cover('end')


def outcome(vc, kw):
    """stand-in for the minimisation"""
    def f(func, guess, full_output=None, **k):
        kw.update(k)
        vc.true('full output', full_output == 1)
        return kw['ret']
    return f


@unit('C16', cases=[(cov, k, ns) for cov in ('none', 'some') for k in (False, True) for ns in ((5, 1), (3, 1), (2, 0), (8, 2))],
      real=False)
def statistics(vc, case):
    """flags and the scaled covariance of a finished minimisation"""
    import ngmix.flags as F
    M = mod()
    cv, kspace, (m, nprior) = case
    n = 2
    ier = pick(vc, 'ier', list(range(1, 9)))
    pars = vc.vec('p', n)
    c = vc.mat('c', (n, n))
    c[1, 0] = c[0, 1]
    cov0 = c if cv == 'some' else None
    y = vc.vec('y', m)
    kw = {}
    kw['ret'] = (pars.copy(), None if cov0 is None else cov0.copy(), dict(nfev=vc.int('nfev', 1)), 'msg', ier)
    cf = pick(vc, 'cflags', [0, F.LM_NEG_COV_EIG, F.LM_NEG_COV_DIAG, F.EIG_NOTFINITE])
    vc.patch(M, 'leastsqbound', outcome(vc, kw))
    vc.patch(M, '_test_cov', lambda c: cf)
    if vc.symbolic:
        vc.patch(M, 'print_pars', lambda *a, **k: None)

    def func(x):
        for i in range(n):
            vc.eq('residuals at the solution', x[i], pars[i], tol=0)
        return y.copy()
    bs = [(None, None)] * n
    res = M.run_leastsq(func, vc.np.zeros(n), nprior, bounds=bs, k_space=kspace)
    vc.true('bounds passed on', kw['bounds'] is bs and 'k_space' not in kw)
    vc.true('number of evaluations', res['nfev'] == kw['ret'][2]['nfev'])
    vc.true('status', res['ier'] == ier)
    dof = ((m - nprior) // 2 if kspace else m - nprior) - n
    if vc.case(ier > 4):
        vc.true('flagged', vc.Not(res['flags'] == 0))
        vc.cover('failed')
        return
    vc.eq('solution', res['pars'], pars, tol=0)
    if cov0 is None:
        vc.true('singular', res['flags'] == F.LM_SINGULAR_MATRIX)
    elif dof == 0:
        vc.true('no degrees of freedom', res['flags'] == F.ZERO_DOF)
    else:
        s2 = sum(v * v for v in y[nprior:])
        vc.eq('covariance', res['pars_cov'] * dof, c * s2)
        if vc.case(cf == 0):
            vc.true('no flag', res['flags'] == 0)
            if vc.case(vc.And(s2 * dof > 0, c[0, 0] > 0, c[1, 1] > 0)):
                for i in range(n):
                    e = res['pars_err'][i]
                    vc.eq('error', e * e * dof, c[i, i] * s2)
                    vc.le('error', 0, e)
        else:
            vc.true('flag', res['flags'] == cf)
    vc.cover('end')


@unit('C16', samples=30, prove=False)
def bad_covariance(vc):
    """negative variances or eigenvalues and values that are not finite are flagged"""
    import numpy as np
    import ngmix.flags as F
    M = mod()
    c = vc.mat('c', (2, 2))
    c[1, 0] = c[0, 1]
    f = M._test_cov(c)
    ev = np.linalg.eigvalsh(c)
    if abs(ev).min() > 1e-8:
        vc.true('negative eigenvalue', bool(f & F.LM_NEG_COV_EIG) == (ev.min() < 0))
    vc.true('negative variance', bool(f & F.LM_NEG_COV_DIAG) == (min(c[0, 0], c[1, 1]) < 0))
    vc.true('nothing else', f & ~(F.LM_NEG_COV_EIG | F.LM_NEG_COV_DIAG) == 0)
    c[0, 1] = c[1, 0] = float('nan')
    vc.true('not finite', M._test_cov(c) == F.EIG_NOTFINITE)
    vc.cover('end')


@unit('C16', cases=['nan', 'inf', 'zero', 'other'], samples=5)
def not_finite(vc, kind):
    """a function that cannot be evaluated gives a flag, any other error is raised"""
    import ngmix.flags as F
    M = mod()

    def f(*a, **k):
        if kind == 'zero':
            raise ZeroDivisionError('x')
        raise ValueError({'nan': 'array must not contain infs or NaNs', 'inf': 'infs', 'other': 'something else'}[kind])
    vc.patch(M, 'leastsqbound', f)
    r = vc.call(M.run_leastsq, lambda x: x, vc.np.zeros(2), 0)
    vc.unpatch()
    if kind == 'other':
        vc.true('raised', not r.ok and r.name == 'ValueError')
    else:
        vc.true('flagged', r.ok and r.value['flags'] == (F.DIV_ZERO if kind == 'zero' else F.LM_FUNC_NOTFINITE))
    vc.cover('end')


@unit('C16', cases=[(a, b, c) for a in KINDS for b in KINDS for c in (0, 1)], samples=20)
def jacobian(vc, case):
    """a given derivative is evaluated inside the bounds and chained with the derivative of the mapping"""
    M = mod()
    a, b, col = case
    bs = [bound(vc, a, '0'), bound(vc, b, '1')]
    n, m = 2, 3
    mp, func = start(vc, M, bs, n, m, (1, 2), [1])
    J = vc.mat('J', (n, m) if col else (m, n))
    at = []

    def dfun(x, arg):
        for i in range(n):
            inside(vc, bs[i], x[i], 'derivative evaluated inside the bounds')
        at.append(x)
        return J.copy()
    x0 = vc.np.array([external(vc, bs[i], str(i)) for i in range(n)])
    M.leastsqbound(func, x0, args=7, bounds=bs, Dfun=dfun, col_deriv=col)
    vc.eq('evaluated at the external parameters', at[-1], M._internal2external_func(bs)(mp.dp), tol=0)
    g = M._internal2external_grad(mp.dp, bs)
    for i in range(n):
        for k in range(m):
            if col:
                vc.eq('chained', mp.jac[i, k], J[i, k] * g[i])
            else:
                vc.eq('chained', mp.jac[k, i], J[k, i] * g[i])
    vc.cover('end')
