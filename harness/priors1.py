"""Priors: one density in all its forms.  Each prior is checked against its
documented density; all forms of evaluation against one another."""
from pyvc.unit import unit

INF = float('inf')


def P():
    import ngmix.priors as m
    return m


def refused(r):
    return (not r.ok) and r.name == 'GMixRangeError'


def low(vc, x):
    """minus infinity or zero probability"""
    return isinstance(x, float) and x == -INF


def pts(vc, n=2, name='x', **k):
    return [vc.real('%s%d' % (name, i), **k) for i in range(n)]


def arr(vc, xs):
    return vc.np.array(xs)


def near(vc, centre, width, name):
    """an arbitrary location (in the samples: in the interesting range)"""
    return centre + width * vc.real(name)


def agree(vc, p, xs, fdiff=True, prob=True):
    """array and scalar evaluation, for locations where evaluation succeeds"""
    a = arr(vc, xs)
    keep = arr(vc, list(xs))
    la = p.get_lnprob_array(a)
    vc.true('one per location', len(la) == len(xs))
    for i, x in enumerate(xs):
        vc.eq('log probability array', la[i], p.get_lnprob_scalar(x), scale=1)
    if prob:
        pa = p.get_prob_array(a)
        vc.true('one per location', len(pa) == len(xs))
        for i, x in enumerate(xs):
            vc.eq('probability array', pa[i], p.get_prob_scalar(x), scale=1)
    vc.eq('locations unchanged', a, keep, tol=0)


# ------------------------------------------------------------------ flat
def flat(vc):
    lo = vc.real('lo')
    hi = lo + vc.real('w', pos=True)
    return P().FlatPrior(lo, hi, rng=vc.rng('rng')), lo, hi


@unit('C17', samples=200)
def flat_density(vc):
    p, lo, hi = flat(vc)
    x = near(vc, (lo + hi) / 2, hi - lo, 'x')
    y = near(vc, (lo + hi) / 2, hi - lo, 'y')
    one = lambda v: vc.case(v >= lo) and vc.case(v <= hi)
    ix, iy = one(x), one(y)
    for f, val in ((p.get_lnprob_scalar, 0.0), (p.get_prob_scalar, 1.0), (p.get_fdiff, 0.0)):
        r = vc.call(f, x)
        if ix:
            vc.true('evaluated', r.ok)
            vc.eq('value', r.value, val)
        else:
            vc.true('refused', refused(r))
    for f in (p.get_lnprob_array, p.get_prob_array):
        r = vc.call(f, arr(vc, [x, y]))
        if not (ix and iy):
            vc.true('refused', refused(r))
    if ix and iy:
        agree(vc, p, [x, y])
    vc.true('no bounds', not p.has_bounds())
    vc.cover('end')


@unit('C17', cases=['one', 1, 3], samples=60, bound='at most 3 samples')
def flat_sample(vc, n):
    p, lo, hi = flat(vc)
    s = p.sample() if n == 'one' else p.sample(n)
    if n != 'one':
        vc.true('number', len(s) == n)
    for k, v in enumerate([s] if n == 'one' else s):
        vc.le('inside', lo, v)
        vc.le('inside', v, hi)
        vc.eq('uniform', v, lo + (hi - lo) * p.rng.log[k])
    vc.cover('end')


# -------------------------------------------------------------- erf
def erf_of(vc):
    if vc.symbolic:
        from pyvc.shims import math
    else:
        import math
    return math.erf


def erf2(vc):
    lo = vc.real('lo')
    hi = lo + vc.real('w', pos=True)
    a, b = vc.real('wlo', pos=True), vc.real('whi', pos=True)
    return P().TwoSidedErf(lo, a, hi, b, rng=vc.rng('rng')), lo, hi, a, b


@unit('C17', samples=200)
def erf_density(vc):
    p, lo, hi, a, b = erf2(vc)
    x = near(vc, (lo + hi) / 2, hi - lo, 'x')
    y = near(vc, (lo + hi) / 2, hi - lo, 'y')
    pr = p.get_prob_scalar(x)
    erf = erf_of(vc)
    vc.eq('documented form', pr, 0.5 * erf((hi - x) / b) + 0.5 * erf((x - lo) / a), scale=1)
    ln = p.get_lnprob_scalar(x)
    fd = p.get_fdiff(x)
    if vc.case(pr > 0):
        vc.eq('log of the probability', ln, vc.np.log(pr), scale=1)
        vc.eq('residual form', -0.5 * fd * fd, ln, scale=1)
    else:
        vc.true('minus infinity', low(vc, ln))
        vc.true('infinite residual', fd == INF)
    agree(vc, p, [x, y])
    fa = p.get_fdiff(arr(vc, [x, y]))
    vc.eq('residual array', fa[0], fd, scale=1)
    vc.eq('residual array', fa[1], p.get_fdiff(y), scale=1)
    vc.cover('end')


@unit('C17', cases=['one', 1, 2], samples=30, bound='at most 2 samples')
def erf_sample(vc, n):
    p, lo, hi, a, b = erf2(vc)
    s = p.sample() if n == 'one' else p.sample(n)
    if n != 'one':
        vc.true('number', len(s) == n)
    for v in [s] if n == 'one' else s:
        vc.lt('inside the support', 0.0, p.get_prob_scalar(v))
        vc.le('range', lo - 5 * a, v)
        vc.le('range', v, hi + 5 * b)
    vc.cover('end')


# ---------------------------------------------------------------- normal
def normal(vc, **k):
    m, s = vc.real('mean'), vc.real('sigma', pos=True)
    return P().Normal(m, s, rng=vc.rng('rng'), **k), m, s


@unit('C17', samples=200)
def normal_density(vc):
    p, m, s = normal(vc)
    x, y = near(vc, m, s, 'x'), near(vc, m, s, 'y')
    for f in (p.get_lnprob, p.get_lnprob_scalar):
        vc.eq('log density', f(x), -0.5 * (x - m) * (x - m) / (s * s), scale=1)
    ln = p.get_lnprob_scalar(x)
    for f in (p.get_prob, p.get_prob_scalar):
        vc.eq('log of the probability', vc.np.log(f(x)), ln, scale=1)
    fd = p.get_fdiff(x)
    vc.eq('residual form', -0.5 * fd * fd, ln, scale=1)
    vc.eq('residual', fd, (x - m) / s, scale=1)
    agree(vc, p, [x, y])
    a = arr(vc, [x, y])
    fa = p.get_fdiff(a)
    vc.eq('residual array', fa[1], p.get_fdiff(y), scale=1)
    vc.true('no bounds', not p.has_bounds())
    q, _, _ = normal(vc, bounds=(1.0, 2.0))
    vc.true('bounds', q.has_bounds() and tuple(q.bounds) == (1.0, 2.0))
    vc.cover('end')


@unit('C17', cases=['none', 'nrand', 'size'], samples=40, bound='at most 2 samples')
def normal_sample(vc, how):
    p, m, s = normal(vc)
    v = p.sample() if how == 'none' else (p.sample(2) if how == 'nrand' else p.sample(size=2))
    if how == 'none':
        v = [v]
    else:
        vc.true('number', len(v) == 2)
    for k, x in enumerate(v):
        vc.eq('scaled draw', x, m + s * p.rng.log[k], scale=1)
    vc.cover('end')


@unit('C17', samples=60)
def lmbounds(vc):
    lo = vc.real('lo')
    hi = lo + vc.real('w', pos=True)
    p = P().LMBounds(lo, hi, rng=vc.rng('rng'))
    x = vc.real('x')
    vc.eq('no contribution', p.get_fdiff(x), 0.0)
    vc.eq('no contribution', p.get_fdiff(arr(vc, [x, x])), arr(vc, [0.0, 0.0]))
    vc.true('has bounds', p.has_bounds())
    vc.eq('bounds', p.bounds[0], lo)
    vc.eq('bounds', p.bounds[1], hi)
    s = p.sample()
    t = p.sample(2)
    vc.true('number', len(t) == 2)
    for v in [s] + list(t):
        vc.le('inside', lo, v)
        vc.le('inside', v, hi)
    vc.cover('end')


@unit('C17', cases=[(c, n) for c in ('normal', 'flat') for n in ('one', 1, 2)], samples=30, bound='at most 2 samples')
def limited(vc, case):
    """sampling within limits"""
    c, n = case
    p = normal(vc)[0] if c == 'normal' else flat(vc)[0]
    mid = p.mean if c == 'normal' else (p.minval + p.maxval) / 2
    lo = mid - vc.real('below', pos=True)
    hi = mid + vc.real('above', pos=True)
    q = P().LimitPDF(p, [lo, hi])
    vc.true('has bounds', q.has_bounds())
    s = q.sample() if n == 'one' else q.sample(n)
    if n != 'one':
        vc.true('number', len(s) == n)
    for v in [s] if n == 'one' else s:
        vc.lt('above the lower limit', lo, v)
        vc.lt('below the upper limit', v, hi)
        if c == 'flat':
            vc.le('a draw of the density', p.minval, v)
            vc.le('a draw of the density', v, p.maxval)
    vc.cover('end')


@unit('C17', samples=40)
def limits(vc):
    """limits are a pair in increasing order"""
    p = normal(vc)[0]
    a, b = vc.real('a'), vc.real('b', special=(1.0,))
    r = vc.call(P().LimitPDF, p, [a, b])
    if vc.case(a < b):
        vc.true('accepted', r.ok)
    else:
        vc.true('refused', r.name == 'ValueError')
    for bad in ([a], [a, b, b], a):
        r = vc.call(P().LimitPDF, p, bad)
        vc.true('refused', r.name == 'ValueError')
    vc.cover('end')


# -------------------------------------------------------------- lognormal
def lognormal(vc, shift):
    m, s = vc.real('mean', pos=True), vc.real('sigma', pos=True)
    sh = vc.real('shift') if shift else None
    return P().LogNormal(m, s, rng=vc.rng('rng'), shift=sh), m, s, (sh if shift else 0.0)


@unit('C17', cases=[False, True], samples=200)
def lognormal_density(vc, shift):
    p, m, s, sh = lognormal(vc, shift)
    np = vc.np
    var = np.log(1 + s * s / (m * m))
    mu = np.log(m) - 0.5 * var
    vc.eq('log mean', p.logmean, mu, scale=1)
    vc.eq('log variance', p.logvar, var)
    vc.eq('log mode', p.log_mode, mu - var, scale=1)
    vc.eq('mode', np.log(p.mode), mu - var, scale=1)
    # the peak is at the mode and is 1
    vc.eq('peak', p.get_lnprob_scalar(p.mode + sh), 0.0, scale=1, tol=1e-7)
    x = sh + vc.real('x', gen=lambda r: r.choice([0.0, -1.0, 1.0, r.gauss(0, 2), abs(r.gauss(0, 2)), abs(r.gauss(0, 2))]))
    y = sh + vc.real('y', pos=True)
    r = vc.call(p.get_lnprob_scalar, x)
    if vc.case(x - sh <= 0):
        for f in (p.get_lnprob_scalar, p.get_prob_scalar, p.get_fdiff):
            vc.true('refused', refused(vc.call(f, x)))
        for f in (p.get_lnprob_array, p.get_prob_array):
            vc.true('refused', refused(vc.call(f, arr(vc, [y, x]))))
        return
    vc.true('evaluated', r.ok)
    ln = r.value
    d = np.log(x - sh) - (mu - var)
    vc.eq('density', ln, -0.5 * d * d / var, scale=1, tol=1e-7)
    vc.le('peak normalised', ln, 0.0, tol=1e-9)
    vc.eq('log of the probability', np.log(p.get_prob_scalar(x)), ln, scale=1)
    fd = p.get_fdiff(x)
    vc.eq('residual form', -0.5 * fd * fd, ln, scale=1, tol=1e-7)
    agree(vc, p, [x, y])
    vc.cover('end')


@unit('C17', cases=[(a, b) for a in (False, True) for b in ('one', 2)], samples=40, bound='at most 2 samples')
def lognormal_sample(vc, case):
    shift, n = case
    p, m, s, sh = lognormal(vc, shift)
    np = vc.np
    v = p.sample() if n == 'one' else p.sample(n)
    if n != 'one':
        vc.true('number', len(v) == n)
    var = np.log(1 + s * s / (m * m))
    mu = np.log(m) - 0.5 * var
    for k, x in enumerate([v] if n == 'one' else v):
        vc.lt('inside the support', sh, x) if vc.symbolic else vc.le('inside the support', sh, x)
        vc.eq('log of the sample', x - sh, np.exp(mu + np.sqrt(var) * p.rng.log[k]), scale=1)
    vc.cover('end')


@unit('C17', cases=[(a, b) for a in (False, True) for b in ('one', 2)], samples=20, bound='at most 2 samples')
def lognormal_brute(vc, case):
    shift, n = case
    p, m, s, sh = lognormal(vc, shift)
    r = vc.call(p.sample_brute, None if n == 'one' else n)
    if not r.ok:
        vc.true('refused', refused(r))
        return
    v = r.value
    if n != 'one':
        vc.true('number', len(v) == n)
    for x in [v] if n == 'one' else v:
        vc.lt('inside the support', sh, x)
    vc.cover('end')


@unit('C17', samples=40)
def lognormal_refused(vc):
    m = vc.real('mean', special=(0.0,))
    vc.assume(m <= 0)
    r = vc.call(P().LogNormal, m, 1.0, vc.rng('rng'))
    vc.true('refused', r.name == 'ValueError')
    vc.cover('end')


# ------------------------------------------------------------------ sinh
@unit('C17', samples=60)
def sinh(vc):
    m, s = vc.real('mean'), vc.real('scale', pos=True)
    p = P().Sinh(m, s, rng=vc.rng('rng'))
    x = near(vc, m, s, 'x')
    vc.eq('residual', p.get_fdiff(x), vc.np.sinh((x - m) / s), scale=1)
    vc.eq('zero at the mean', p.get_fdiff(m), 0.0, scale=1)
    a = p.get_fdiff(arr(vc, [x, m]))
    vc.eq('array', a[0], p.get_fdiff(x), scale=1)
    v = p.sample()
    t = p.sample(2)
    vc.true('number', len(t) == 2)
    for q in [v] + list(t):
        vc.le('within a scale', m - s, q)
        vc.le('within a scale', q, m + s)
    vc.cover('end')


# ------------------------------------------------------ truncated gaussian
def trunc(vc):
    m, s = vc.real('mean'), vc.real('sigma', pos=True)
    lo = m - s * vc.real('below')
    hi = lo + s * vc.real('w', pos=True)
    return P().TruncatedGaussian(m, s, lo, hi, rng=vc.rng('rng')), m, s, lo, hi


@unit('C17', samples=200)
def trunc_density(vc):
    p, m, s, lo, hi = trunc(vc)
    z = vc.real('x', special=(0.0, 1.0))
    x = lo + z * (hi - lo)
    y = lo + vc.real('y', lo=0.0, hi=1.0) * (hi - lo)
    inside = vc.case(x >= lo) and vc.case(x <= hi)
    r = vc.call(p.get_lnprob_scalar, x)
    f = vc.call(p.get_fdiff, x)
    a = vc.call(p.get_lnprob_array, arr(vc, [x, y]))
    if inside:
        vc.true('evaluated', r.ok and f.ok and a.ok)
        vc.eq('log density', r.value, -0.5 * (x - m) * (x - m) / (s * s), scale=1)
        vc.eq('residual form', -0.5 * f.value * f.value, r.value, scale=1)
        agree(vc, p, [x, y], prob=False)
    else:
        vc.true('refused', refused(r) and refused(f))
        vc.true('refused', refused(a) or (low(vc, a.value[0])))
        if a.ok:
            vc.eq('the others', a.value[1], p.get_lnprob_scalar(y), scale=1)
    vc.cover('end')


@unit('C17', cases=['one', 1, 2], samples=20, bound='at most 2 samples')
def trunc_sample(vc, n):
    p, m, s, lo, hi = trunc(vc)
    if not vc.symbolic:
        vc.assume(lo < m + s)
        vc.assume(hi > m - s)
        vc.assume(hi - lo > 0.2 * s)
    v = p.sample() if n == 'one' else p.sample(n)
    if n != 'one':
        vc.true('number', len(v) == n)
    for x in [v] if n == 'one' else v:
        vc.le('inside', lo, x)
        vc.le('inside', x, hi)
    vc.cover('end')


# ---------------------------------------------------------------- centre
@unit('C17', samples=100)
def cen(vc):
    c1, c2 = vc.real('c1'), vc.real('c2')
    s1, s2 = vc.real('s1', pos=True), vc.real('s2', pos=True)
    p = P().CenPrior(c1, c2, s1, s2, rng=vc.rng('rng'))
    x, y = near(vc, c1, s1, 'x'), near(vc, c2, s2, 'y')
    x2, y2 = near(vc, c1, s1, 'x2'), near(vc, c2, s2, 'y2')
    ln = p.get_lnprob_scalar(x, y)
    vc.eq('log density', ln, -0.5 * (x - c1) * (x - c1) / (s1 * s1) - 0.5 * (y - c2) * (y - c2) / (s2 * s2), scale=1)
    a, b = p.get_lnprob_scalar_sep(x, y)
    vc.eq('first part', a, -0.5 * (x - c1) * (x - c1) / (s1 * s1), scale=1)
    vc.eq('second part', b, -0.5 * (y - c2) * (y - c2) / (s2 * s2), scale=1)
    vc.eq('log of the probability', vc.np.log(p.get_prob_scalar(x, y)), ln, scale=1)
    f1, f2 = p.get_fdiff(x, y)
    vc.eq('residual form', -0.5 * (f1 * f1 + f2 * f2), ln, scale=1)
    vc.eq('first residual', f1, (x - c1) / s1, scale=1)
    xs, ys = arr(vc, [x, x2]), arr(vc, [y, y2])
    la = p.get_lnprob_array(xs, ys)
    pa = p.get_prob_array(xs, ys)
    for i, (u, v) in enumerate(((x, y), (x2, y2))):
        vc.eq('log probability array', la[i], p.get_lnprob_scalar(u, v), scale=1)
        vc.eq('probability array', pa[i], p.get_prob_scalar(u, v), scale=1)
    a, b = p.sample()
    vc.eq('scaled draw', a, c1 + s1 * p.rng.log[0], scale=1)
    vc.eq('scaled draw', b, c2 + s2 * p.rng.log[1], scale=1)
    a, b = p.sample(2)
    vc.true('number', len(a) == 2 and len(b) == 2)
    vc.cover('end')


# ---------------------------------------------------------- shape (B & A)
def ba(vc, amp=True):
    s = vc.real('sigma', pos=True)
    A = vc.real('A', pos=True) if amp else 1.0
    p = P().GPriorBA(s, rng=vc.rng('rng'), A=A)
    return p, s, A


def disk(vc, n):
    r = vc.real('r%s' % n, gen=lambda q: q.choice([q.random(), q.random(), q.random(), 1.0, 1.3]), lo=0.0)
    g1 = vc.real('g1%s' % n, gen=lambda q: q.uniform(-1, 1))
    g2 = vc.real('g2%s' % n, gen=lambda q: q.uniform(-1, 1))
    return g1, g2


@unit('C17', cases=[False, True], samples=200)
def ba_density(vc, amp):
    p, s, A = ba(vc, amp)
    np = vc.np
    g1, g2 = disk(vc, 'a')
    h1, h2 = disk(vc, 'b')
    gsq = g1 * g1 + g2 * g2
    hsq = h1 * h1 + h2 * h2
    inx, iny = vc.case(gsq < 1), vc.case(hsq < 1)
    if not vc.symbolic and abs(gsq - 1) < 1e-9:
        return
    r = vc.call(p.get_lnprob_scalar2d, g1, g2)
    pr = p.get_prob_scalar2d(g1, g2)
    f = vc.call(p.get_fdiff, g1, g2)
    a1, a2 = arr(vc, [g1, h1]), arr(vc, [g2, h2])
    k1, k2 = arr(vc, [g1, h1]), arr(vc, [g2, h2])
    la = p.get_lnprob_array2d(a1, a2)
    pa = p.get_prob_array2d(a1, a2)
    fa = p.get_fdiff(a1, a2)
    vc.eq('locations unchanged', a1, k1, tol=0)
    vc.eq('locations unchanged', a2, k2, tol=0)
    vc.true('one per location', len(la) == 2 and len(pa) == 2 and len(fa) == 2)
    if inx:
        ln = r.value
        vc.true('evaluated', r.ok and f.ok)
        vc.eq('log density', ln, 2 * np.log(1 - gsq) - 0.5 * gsq / (s * s), scale=1)
        vc.eq('density', pr, A * (1 - gsq) * (1 - gsq) * np.exp(-0.5 * gsq / (s * s)), scale=1)
        vc.eq('log of the probability', pr, A * np.exp(ln), scale=1)
        vc.eq('residual form', -0.5 * f.value * f.value, ln, scale=1)
        vc.eq('log probability array', la[0], ln, scale=1)
        vc.eq('residual array', fa[0], f.value, scale=1)
        vc.le('peak normalised', ln, 0.0)
    else:
        vc.true('refused', refused(r) and refused(f))
        vc.eq('no probability', pr, 0.0)
        vc.true('minus infinity', low(vc, la[0]))
        vc.true('infinite residual', fa[0] == INF)
    vc.eq('probability array', pa[0], pr, scale=1)
    vc.eq('probability array', pa[1], p.get_prob_scalar2d(h1, h2), scale=1)
    if iny:
        vc.eq('log probability array', la[1], p.get_lnprob_scalar2d(h1, h2), scale=1)
        vc.eq('residual array', fa[1], p.get_fdiff(h1, h2), scale=1)
    vc.cover('end')


@unit('C17', cases=[False, True], samples=100)
def ba_density1d(vc, amp):
    """the density of the size of a shape, consistent with that of the shape"""
    p, s, A = ba(vc, amp)
    np = vc.np
    g = vc.real('g', gen=lambda q: q.choice([q.random(), q.random(), 1.0, 1.3]), lo=0.0)
    h = vc.real('h', gen=lambda q: q.choice([q.random(), 1.0]), lo=0.0)
    v = p.get_prob_scalar1d(g)
    vc.eq('ring of the two-dimensional density', v, 2 * np.pi * g * p.get_prob_scalar2d(g, 0.0), scale=1)
    vc.eq('negative for the minimiser', p.get_prob_scalar1d_neg(g), -v, scale=1)
    a = arr(vc, [g, h])
    pa = p.get_prob_array1d(a)
    vc.eq('array', pa[0], v, scale=1)
    vc.eq('array', pa[1], p.get_prob_scalar1d(h), scale=1)
    vc.cover('end')


@unit('C17', cases=['one', 1, 2], samples=20, bound='at most 2 samples')
def ba_sample(vc, n):
    p, s, A = ba(vc, False)
    if vc.symbolic:
        p.maxval1d = vc.real('maxval', pos=True)
    v = p.sample2d() if n == 'one' else p.sample2d(n)
    g1, g2 = v
    if n == 'one':
        g1, g2 = [g1], [g2]
    else:
        vc.true('number', len(g1) == n and len(g2) == n)
    for a, b in zip(g1, g2):
        vc.lt('inside the disk', a * a + b * b, 1.0)
    if n == 1:
        r = p.sample1d(n)
        vc.true('number', len(r) == n)
        for x in r:
            vc.le('inside', 0.0, x)
            vc.lt('inside', x, 1.0)
    vc.cover('end')


@unit('C17', cases=[1, 2], samples=20, bound='at most 2 samples')
def ba_brute(vc, n):
    p, s, A = ba(vc, False)
    g1, g2 = p.sample2d_brute(n)
    vc.true('number', len(g1) == n and len(g2) == n)
    for a, b in zip(g1, g2):
        vc.lt('inside the disk', a * a + b * b, 1.0)
    vc.cover('end')


@unit('C17', cases=['one', 1, 2], samples=20, bound='at most 2 samples')
def gauss_sample(vc, n):
    s = vc.real('sigma', gen=lambda r: r.uniform(0.05, 0.8), lo=0.0)
    p = P().GPriorGauss(s, rng=vc.rng('rng'))
    v = p.sample2d() if n == 'one' else p.sample2d(n)
    g1, g2 = v
    if n == 'one':
        g1, g2 = [g1], [g2]
    else:
        vc.true('number', len(g1) == n and len(g2) == n)
    for a, b in zip(g1, g2):
        vc.lt('inside the disk', a * a + b * b, 1.0)
    vc.true('no one-dimensional form', vc.call(p.sample1d, 3).name == 'NotImplementedError')
    vc.cover('end')


# ------------------------------------------------------------------ disk
@unit('C17', samples=200)
def zdisk(vc):
    R = vc.real('R', pos=True)
    p = P().ZDisk2D(R, rng=vc.rng('rng'))
    x, y = R * vc.real('x'), R * vc.real('y')
    x2, y2 = R * vc.real('x2'), R * vc.real('y2')
    inside = vc.case(x * x + y * y < R * R)
    if not vc.symbolic:
        vc.assume(abs(x * x + y * y - R * R) > 1e-9 * R * R)
    r = vc.call(p.get_lnprob_scalar2d, x, y)
    pr = p.get_prob_scalar2d(x, y)
    pa = p.get_prob_array2d(arr(vc, [x, x2]), arr(vc, [y, y2]))
    if inside:
        vc.true('evaluated', r.ok)
        vc.eq('log density', r.value, 0.0)
        vc.eq('density', pr, 1.0)
    else:
        vc.true('refused', refused(r))
        vc.eq('density', pr, 0.0)
    vc.eq('array', pa[0], pr)
    vc.eq('array', pa[1], p.get_prob_scalar2d(x2, y2))
    # as a function of the radius
    s = vc.real('s', lo=0.0)
    if vc.case(s < R):
        vc.eq('log density', p.get_lnprob_scalar1d(s), 0.0)
        vc.eq('density', p.get_prob_scalar1d(s), 1.0)
    else:
        vc.true('refused', refused(vc.call(p.get_lnprob_scalar1d, s)))
        vc.eq('density', p.get_prob_scalar1d(s), 0.0)
    vc.cover('end')


@unit('C17', cases=['one', 1, 2], samples=40, bound='at most 2 samples')
def zdisk_sample(vc, n):
    R = vc.real('R', pos=True)
    p = P().ZDisk2D(R, rng=vc.rng('rng'))
    r = p.sample1d() if n == 'one' else p.sample1d(n)
    for k, v in enumerate([r] if n == 'one' else r):
        vc.le('inside', 0.0, v)
        vc.lt('inside', v, R)
        vc.eq('uniform in area', v * v, R * R * p.rng.log[k], scale=1)
    x, y = p.sample2d() if n == 'one' else p.sample2d(n)
    if n == 'one':
        x, y = [x], [y]
    else:
        vc.true('number', len(x) == n and len(y) == n)
    for a, b in zip(x, y):
        vc.lt('inside', a * a + b * b, R * R)
    vc.cover('end')


@unit('C17', cases=['flat', 'normal', 'size', 'lmbounds', 'lognormal', 'shifted', 'sinh', 'cen', 'zdisk1d', 'zdisk'], samples=20)
def any_number(vc, kind):
    """any number of samples: the number asked for, each the documented transform of its own draws, inside the support"""
    np = vc.np
    rng = vc.rng('g', whole=True)
    n = vc.int('n', 1)
    j = vc.at('j', n)
    if kind in ('flat', 'lmbounds'):
        lo = vc.real('lo')
        hi = lo + vc.real('w', pos=True)
        v = (P().FlatPrior if kind == 'flat' else P().LMBounds)(lo, hi, rng=rng).sample(n)
        x = v[j]
        vc.le('inside', lo, x)
        vc.le('inside', x, hi)
        vc.eq('uniform', x, lo + (hi - lo) * rng.log[0][j])
        out = [v]
    elif kind in ('normal', 'size', 'lognormal', 'shifted', 'sinh'):
        m, s = vc.real('mean', pos=kind in ('lognormal', 'shifted')), vc.real('sigma', pos=True)
        if kind in ('normal', 'size'):
            p = P().Normal(m, s, rng=rng)
            v = p.sample(n) if kind == 'normal' else p.sample(size=n)
            vc.eq('scaled draw', v[j], m + s * rng.log[0][j], scale=1)
        elif kind == 'sinh':
            v = P().Sinh(m, s, rng=rng).sample(n)
            vc.eq('uniform', v[j], m - s + 2 * s * rng.log[0][j], scale=1)
        else:
            sh = vc.real('shift') if kind == 'shifted' else None
            v = P().LogNormal(m, s, rng=rng, shift=sh).sample(n)
            var = np.log(1 + s * s / (m * m))
            mu = np.log(m) - 0.5 * var
            x, sh = v[j], sh if kind == 'shifted' else 0.0
            vc.lt('inside the support', sh, x) if vc.symbolic else vc.le('inside the support', sh, x)
            vc.eq('log of the sample', x - sh, np.exp(mu + np.sqrt(var) * rng.log[0][j]), scale=1)
        out = [v]
    elif kind == 'cen':
        c1, c2 = vc.real('c1'), vc.real('c2')
        s1, s2 = vc.real('s1', pos=True), vc.real('s2', pos=True)
        out = a, b = P().CenPrior(c1, c2, s1, s2, rng=rng).sample(n)
        vc.eq('scaled draw', a[j], c1 + s1 * rng.log[0][j], scale=1)
        vc.eq('scaled draw', b[j], c2 + s2 * rng.log[1][j], scale=1)
    else:
        R = vc.real('R', pos=True)
        p = P().ZDisk2D(R, rng=rng)
        if kind == 'zdisk1d':
            v = p.sample1d(n)
            vc.le('inside', 0.0, v[j])
            vc.le('inside', v[j], R)
            vc.eq('uniform in area', v[j] * v[j], R * R * rng.log[0][j], scale=1)
            out = [v]
        else:
            out = x, y = p.sample2d(n)
            vc.le('inside', x[j] * x[j] + y[j] * y[j], R * R * (1 + 1e-9))
    for v in out:
        vc.true('number', vc.And(len(v.shape) == 1, v.shape[0] == n))
    vc.cover('end')


# the samplers that draw until enough candidates were accepted: the loop that fills the arrays is proved with an
# invariant about the elements that are there
@unit('C17', cases=['erf', 'trunc', 'limit normal', 'limit flat', 'lognormal', 'shifted', 'ba1d', 'ba', 'brute', 'gauss'], samples=20)
def rejection_any(vc, kind):
    """any number of samples, any number of rejected candidates: the number asked for, each inside the support"""
    rng = vc.rng('g', whole=True)
    n = vc.int('n', 1)
    j = vc.at('j', n)
    lo = hi = None
    if kind == 'erf':
        p, a, b, wa, wb = erf2(vc)
        p.rng = rng
        lo, hi = a - 5 * wa, b + 5 * wb
        erf = erf_of(vc)
        inside = lambda x: [x >= lo, x <= hi, 0.5 * erf((b - x) / wb) + 0.5 * erf((x - a) / wa) > 0]
    elif kind == 'trunc':
        p, m, s, lo, hi = trunc(vc)
        p.rng = rng
        if not vc.symbolic:
            vc.assume(lo < m + s)
            vc.assume(hi > m - s)
            vc.assume(hi - lo > 0.2 * s)
        inside = lambda x: [x >= lo, x <= hi]
    elif kind.startswith('limit'):
        if kind == 'limit normal':
            m, s = vc.real('mean'), vc.real('sigma', pos=True)
            q = P().Normal(m, s, rng=rng)
            lo, hi = m - s * vc.real('lo', pos=True), m + s * vc.real('hi', pos=True)
            if not vc.symbolic:
                vc.assume(hi - lo > 0.2 * s)
        else:
            a = vc.real('a')
            w = vc.real('w', pos=True)
            q = P().FlatPrior(a, a + w, rng=rng)
            lo, hi = a + w * vc.real('lo', lo=0.0, hi=0.4), a + w * vc.real('hi', lo=0.6, hi=1.0)
        p = P().LimitPDF(q, (lo, hi))
        inside = lambda x: [x > lo, x < hi]
    elif kind in ('lognormal', 'shifted'):
        p, m, s, sh = lognormal(vc, kind == 'shifted')
        p.rng = rng
        inside = lambda x: [x > sh]
    elif kind == 'gauss':
        p = P().GPriorGauss(vc.real('sigma', gen=lambda r: r.uniform(0.05, 0.8), lo=0.0), rng=rng)
        inside = lambda x, y: [x * x + y * y < 1]
    else:
        p, s, A = ba(vc, False)
        p.rng = rng
        if vc.symbolic:
            p.maxval1d = vc.real('maxval', pos=True)
        inside = (lambda x, y: [x * x + y * y < 1]) if kind == 'brute' else (lambda x: [x >= 0, x < 1])
    vc.filled(inside, (lo + hi) / 2 if lo is not None else sh + m if kind in ('lognormal', 'shifted') else 0.25)
    call = p.sample_brute if kind in ('lognormal', 'shifted') else p.sample1d if kind == 'ba1d' else p.sample2d \
        if kind in ('ba', 'gauss') else p.sample2d_brute if kind == 'brute' else p.sample
    r = vc.call(call, n)
    if not r.ok:
        vc.true('refused', kind in ('lognormal', 'shifted') and refused(r))
        return
    out = r.value if kind in ('ba', 'gauss', 'brute') else (r.value,)
    for v in out:
        vc.true('number', vc.And(len(v.shape) == 1, v.shape[0] == n))
    x = [v[j] for v in out]
    if kind == 'ba':
        vc.lt('inside the disk', x[0] * x[0] + x[1] * x[1], 1.0)
    else:
        for c in inside(*x):
            vc.true('inside the support', c)
    vc.cover('end')


# --------------------------------------------------- a generator is needed

# ------------------------------------------------------ arrays of any length
ANYARR = ['flat', 'erf', 'normal', 'lognormal', 'shifted', 'trunc', 'cen', 'ba', 'ba1d', 'zdisk']


@unit('C17', cases=ANYARR, samples=60)
def arrays_any(vc, kind):
    """arrays of any length: the value at an arbitrary location is that of the scalar form, and a refusal means that
    some location is outside the support"""
    n = vc.int('n', 1)
    i = None
    two = kind in ('cen', 'ba', 'zdisk')
    if kind == 'flat':
        p, lo, hi = flat(vc)
        bad = lambda x: vc.Or(x < lo, x > hi)
    elif kind == 'erf':
        p, lo, hi, wa, wb = erf2(vc)
        erf = erf_of(vc)
        good = lambda x: 0.5 * erf((hi - x) / wb) + 0.5 * erf((x - lo) / wa) > 0
        bad = None
    elif kind == 'normal':
        p, m, s = normal(vc)
        bad = None
    elif kind in ('lognormal', 'shifted'):
        p, m, s, sh = lognormal(vc, kind == 'shifted')
        bad = lambda x: x - sh <= 0
    elif kind == 'trunc':
        p, m, s, lo, hi = trunc(vc)
        bad = None
    elif kind == 'cen':
        c1, c2 = vc.real('c1'), vc.real('c2')
        s1, s2 = vc.real('s1', pos=True), vc.real('s2', pos=True)
        p, bad = P().CenPrior(c1, c2, s1, s2, rng=vc.rng('rng')), None
    elif kind in ('ba', 'ba1d'):
        p, s, A = ba(vc)
        bad = None
    else:
        R = vc.real('R', pos=True)
        p, bad = P().ZDisk2D(R, rng=vc.rng('rng')), None
    k = {None: dict(gen=lambda r: r.choice([r.uniform(-1.5, 1.5), r.uniform(0.0, 0.7), r.uniform(0.0, 0.7)]))}
    if kind in ('lognormal', 'flat') and not vc.symbolic:
        k = {None: dict(gen=lambda r: r.choice([lo + (hi - lo) * r.random() for _ in range(3)] + [r.gauss(0, 1)]) if kind == 'flat' else abs(r.gauss(0, 1)) - 0.01)}
    if kind == 'ba1d':
        k = {None: dict(gen=lambda r: r.random(), lo=0.0)}
    a = [vc.symarr('a', n, k)] + ([vc.symarr('b', n, k)] if two else [])
    keep = [x.copy() for x in a]
    i = vc.at('i', n)
    at = [x[i] for x in keep]
    forms = [('get_lnprob_array', 'get_lnprob_scalar'), ('get_prob_array', 'get_prob_scalar')]
    if kind == 'trunc':
        # outside the support the array form gives minus infinity, the scalar form refuses
        vc.assume(vc.And(at[0] >= lo, at[0] <= hi))
        vc.counted(vc.sum(n, lambda j: vc.ite(vc.And(keep[0][j] >= lo, keep[0][j] <= hi), 1, 0)), n, True)
        forms = forms[:1]
    if kind == 'erf':
        vc.assume(p.get_prob_scalar(at[0]) > 0)
        vc.counted(vc.sum(n, lambda j: vc.ite(good(keep[0][j]), 1, 0)), n, True)
    if kind == 'ba':
        vc.assume(at[0] * at[0] + at[1] * at[1] < 1)
        vc.counted(vc.sum(n, lambda j: vc.ite(keep[0][j] * keep[0][j] + keep[1][j] * keep[1][j] < 1, 1, 0)), n, True)
        forms = [('get_lnprob_array2d', 'get_lnprob_scalar2d'), ('get_prob_array2d', 'get_prob_scalar2d'), ('get_fdiff', 'get_fdiff')]
    if kind == 'ba1d':
        vc.assume(at[0] < 1)
        vc.counted(vc.sum(n, lambda j: vc.ite(keep[0][j] * keep[0][j] < 1, 1, 0)), n, True)
        forms = [('get_prob_array1d', 'get_prob_scalar1d')]
    if kind == 'zdisk':
        c = at[0] * at[0] + at[1] * at[1] < R * R
        if not vc.symbolic:
            vc.assume(abs(at[0] * at[0] + at[1] * at[1] - R * R) > 1e-9 * R * R)
        vc.counted(vc.sum(n, lambda j: vc.ite(keep[0][j] * keep[0][j] + keep[1][j] * keep[1][j] < R * R, 1, 0)), n, c, True)
        forms = [('get_prob_array2d', 'get_prob_scalar2d')]
    some = False
    if bad is not None:
        total = vc.sum(n, lambda j: vc.ite(bad(keep[0][j]), 1, 0))
        vc.counted(total, n, bad(at[0]), True)
        some = vc.case(total > 0)
    for f, g in forms:
        r = vc.call(getattr(p, f), *a)
        if some:
            vc.true('refused', refused(r))
            continue
        vc.true('evaluated', r.ok)
        vc.true('one per location', r.value.size == n)
        vc.eq('that of the scalar form', r.value[i], getattr(p, g)(*at), scale=1)
    vc.eq('locations unchanged', [x[i] for x in a], at, tol=0)
    vc.cover('end')


@unit('C17', samples=5)
def needs_rng(vc):
    m = P()
    for f in (lambda: m.FlatPrior(0.0, 1.0, None), lambda: m.Normal(0.0, 1.0, None),
              lambda: m.CenPrior(0.0, 0.0, 1.0, 1.0, None), lambda: m.GPriorBA(0.3, None)):
        vc.true('refused', vc.call(f).name == 'AssertionError')
    vc.cover('end')


# ------------------------------------------- samples follow the density
def ks(vc, name, draws, prob, lo, hi):
    """largest distance of the sample distribution from that of prob, in
    units of its standard deviation (a value of 3.5 has probability 1e-10)"""
    import numpy as np
    x = np.linspace(lo, hi, 20001)
    p = np.array([prob(t) for t in x])
    cdf = np.concatenate([[0], np.cumsum((p[1:] + p[:-1]) / 2)])
    cdf /= cdf[-1]
    d = np.sort(np.asarray(draws))
    F = np.interp(d, x, cdf)
    n = d.size
    D = max(np.abs(np.arange(1, n + 1) / n - F).max(), np.abs(np.arange(n) / n - F).max())
    vc.le(name, D * np.sqrt(n), 3.5)


SAMPLED = ['flat', 'erf', 'normal', 'lognormal', 'lognormal shifted', 'truncated', 'limits', 'ba', 'gauss', 'disk', 'cen',
           'lmbounds', 'sinh']


@unit('C17', cases=SAMPLED, prove=False, samples=2)
def distribution(vc, kind):
    """(run time only, 4000 draws) samples are distributed like the density"""
    import numpy as np
    m = P()
    rng = np.random.RandomState(1000 + int(1000 * abs(vc.real('seed'))))
    n = 4000
    if kind == 'flat':
        ks(vc, 'distribution', m.FlatPrior(-1.0, 2.0, rng).sample(n), lambda t: 1.0, -1.0, 2.0)
    if kind == 'lmbounds':
        ks(vc, 'distribution', m.LMBounds(-1.0, 2.0, rng).sample(n), lambda t: 1.0, -1.0, 2.0)
    if kind == 'sinh':
        ks(vc, 'distribution', m.Sinh(1.0, 2.0, rng).sample(n), lambda t: 1.0, -1.0, 3.0)
    if kind == 'erf':
        p = m.TwoSidedErf(-1.0, 0.5, 2.0, 0.7, rng)
        ks(vc, 'distribution', p.sample(n), p.get_prob_scalar, -3.5, 5.5)
    if kind == 'normal':
        p = m.Normal(1.0, 0.3, rng)
        ks(vc, 'distribution', p.sample(n), p.get_prob_scalar, -2.0, 4.0)
    if kind.startswith('lognormal'):
        p = m.LogNormal(1.5, 0.6, rng, shift=(-0.7 if 'shifted' in kind else None))
        sh = -0.7 if 'shifted' in kind else 0.0
        for f in (p.sample, p.sample_brute):
            d = f(n)
            ks(vc, 'distribution', d, p.get_prob_scalar, sh + 1e-9, sh + 12.0)
        d = p.sample(40000) - sh
        vc.eq('mean', d.mean(), 1.5, tol=6 * 0.6 / np.sqrt(d.size))
        vc.eq('standard deviation', d.std(), 0.6, tol=0.05)
    if kind == 'truncated':
        p = m.TruncatedGaussian(1.0, 0.8, 0.3, 2.5, rng)
        ks(vc, 'distribution', p.sample(n), lambda t: np.exp(p.get_lnprob_scalar(t)), 0.3, 2.5)
    if kind == 'limits':
        p = m.Normal(1.0, 0.3, rng)
        ks(vc, 'distribution', m.LimitPDF(p, (0.9, 1.5)).sample(n), p.get_prob_scalar, 0.9, 1.5)
    if kind == 'ba':
        p = m.GPriorBA(0.3, rng)
        ks(vc, 'distribution of sizes', p.sample1d(n), p.get_prob_scalar1d, 0.0, 1.0)
        for f in (p.sample2d, p.sample2d_brute):
            a, b = f(n)
            ks(vc, 'distribution of sizes', np.hypot(a, b), p.get_prob_scalar1d, 0.0, 1.0)
            ks(vc, 'distribution of angles', np.arctan2(b, a), lambda t: 1.0, -np.pi, np.pi)
    if kind == 'gauss':
        p = m.GPriorGauss(0.3, rng)
        a, b = p.sample2d(n)
        ks(vc, 'distribution of sizes', np.hypot(a, b), lambda t: t * np.exp(-0.5 * t * t / 0.09), 0.0, 1.0)
        ks(vc, 'distribution of angles', np.arctan2(b, a), lambda t: 1.0, -np.pi, np.pi)
    if kind == 'disk':
        p = m.ZDisk2D(1.7, rng)
        a, b = p.sample2d(n)
        ks(vc, 'distribution of radii', np.hypot(a, b), lambda t: t, 0.0, 1.7)
        ks(vc, 'distribution of radii', p.sample1d(n), lambda t: t, 0.0, 1.7)
        ks(vc, 'distribution of angles', np.arctan2(b, a), lambda t: 1.0, -np.pi, np.pi)
    if kind == 'cen':
        p = m.CenPrior(0.3, -0.2, 0.5, 1.5, rng)
        a, b = p.sample(n)
        ks(vc, 'first', a, lambda t: np.exp(-0.5 * ((t - 0.3) / 0.5) ** 2), -4.0, 4.6)
        ks(vc, 'second', b, lambda t: np.exp(-0.5 * ((t + 0.2) / 1.5) ** 2), -12.0, 12.0)
    vc.cover('end')
