"""Joint priors: the product of their parts, each on its own parameters.

The parts are stand-ins with the contract proved for the real priors (C17):
an arbitrary log density f <= 0, the same in all forms; a residual with
-f^2/2 = log density; samples that are arbitrary numbers."""
from pyvc.unit import unit

INF = float('inf')


def J():
    import ngmix.joint_prior as m
    return m


class Part(object):
    def __init__(self, vc, name, bad=None, bounds=None, k=0):
        from ngmix.gexceptions import GMixRangeError
        self.vc = vc
        self.err = GMixRangeError
        self.f = vc.ufun('ln_' + name, lambda *a: -sum((x - 0.1 * k) ** 2 * (1 + 0.3 * k + 0.1 * j) for j, x in enumerate(a)),
                         facts=lambda *a: self.f0(*a) <= 0)
        self.f0 = self.f
        self.name = name
        self.bad = bad
        self.bounds = bounds
        self.draws = []
        self.k = k

    def has_bounds(self):
        return self.bounds is not None

    def one(self, *a):
        if self.bad == 'raise':
            raise self.err('out of range')
        if self.bad == 'inf':
            return -INF
        return self.f(*a)

    def many(self, *a):
        np = self.vc.np
        r = np.zeros(len(a[0]))
        for i in range(len(a[0])):
            r[i] = self.one(*[x[i] for x in a])
        return r

    def sample(self, nrand=None):
        vc = self.vc
        n = len(self.draws)
        if nrand is None:
            v = vc.real('draw_%s_%d' % (self.name, n))
        else:
            v = vc.vec('draw_%s_%d' % (self.name, n), nrand)
        self.draws.append(v)
        return v


class Part1(Part):
    def get_lnprob_scalar(self, x):
        return self.one(x)

    def get_lnprob_array(self, x):
        return self.many(x)

    def get_fdiff(self, x):
        v = self.one(x)
        return INF if v is -INF else self.vc.np.sqrt(-2 * v)


class Cen(Part):
    """two independent dimensions"""

    def __init__(self, vc, name, **k):
        super().__init__(vc, name + '1', **k)
        self.other = Part1(vc, name + '2', k=5)

    def get_lnprob_scalar(self, x, y):
        a, b = self.get_lnprob_scalar_sep(x, y)
        return a + b

    def get_lnprob_scalar_sep(self, x, y):
        return self.one(x), self.other.one(y)

    def get_lnprob_array(self, x, y):
        return self.many(x) + self.other.many(y)

    def get_fdiff(self, x, y):
        np = self.vc.np
        a = self.one(x)
        return np.sqrt(-2 * a), np.sqrt(-2 * self.other.one(y))

    def sample(self, nrand=None):
        return Part.sample(self, nrand), self.other.sample(nrand)


class Shape(Part):
    def get_lnprob_scalar2d(self, x, y):
        return self.one(x, y)

    def get_lnprob_array2d(self, x, y):
        return self.many(x, y)

    def get_fdiff(self, x, y):
        v = self.one(x, y)
        return INF if v is -INF else self.vc.np.sqrt(-2 * v)

    def sample2d(self, nrand=None):
        a = Part.sample(self, nrand)
        b = Part.sample(self, nrand)
        return a, b


SINGLE = {
    'simple': ['T'],
    'galsim': ['r50'],
    'bd': ['T', 'logTratio', 'fracdev'],
    'bdf': ['T', 'fracdev'],
    'spergel': ['r50', 'nu'],
}
KINDS = sorted(SINGLE)


def make(vc, kind, nband, bad=(None, None), bounds=(), listed=True):
    """the joint prior and its one-dimensional parts, in parameter order"""
    m = J()
    b = lambda nm: (bad[1] if bad[0] == nm else None)
    bd = lambda nm, i: ((float(i), 10.0 + i) if nm in bounds else None)
    cen = Cen(vc, 'cen', bad=b('cen'), k=1)
    g = Shape(vc, 'g', bad=b('g'), k=2)
    names = SINGLE[kind] + ['F%d' % i for i in range(nband)]
    parts = [Part1(vc, nm, bad=b(nm), bounds=bd(nm, i), k=i + 6) for i, nm in enumerate(names)]
    n = len(SINGLE[kind])
    F = parts[n:]
    if not listed:
        F = F[0]
    kw = dict(zip([x + '_prior' for x in SINGLE[kind]], parts))
    cls = dict(simple=m.PriorSimpleSep, galsim=m.PriorGalsimSimpleSep, bd=m.PriorBDSep,
               bdf=m.PriorBDFSep, spergel=m.PriorSpergelSep)[kind]
    return cls(cen_prior=cen, g_prior=g, F_prior=F, **kw), cen, g, parts, names


def value(cen, g, parts, pars):
    t = cen.f(pars[0]) + cen.other.f(pars[1]) + g.f(pars[2], pars[3])
    for k, p in enumerate(parts):
        t = t + p.f(pars[4 + k])
    return t


@unit('C18', cases=[(k, n) for k in KINDS for n in (0, 1, 2, 3)], samples=30)
def density(vc, case):
    """log probability, residuals and array form"""
    kind, nband = case
    p, cen, g, parts, names = make(vc, kind, max(nband, 1), listed=nband > 0)
    n = 4 + len(parts)
    pars = vc.vec('p', n)
    keep = pars.copy()
    ln = p.get_lnprob_scalar(pars)
    want = value(cen, g, parts, pars)
    vc.eq('sum of the parts', ln, want, scale=1)
    vc.eq('probability', p.get_prob_scalar(pars), vc.np.exp(ln), scale=1)
    extra = 2
    fd = vc.vec('fd', n - 1 + extra)
    k0 = fd.copy()
    m = p.fill_fdiff(pars, fd)
    vc.true('one residual per component', m == n - 1)
    s = 0.0
    for i in range(m):
        s = s + fd[i] * fd[i]
    vc.eq('half the squared residuals', -0.5 * s, ln, scale=1)
    one = [cen.f(pars[0]), cen.other.f(pars[1]), g.f(pars[2], pars[3])] + [q.f(pars[4 + i]) for i, q in enumerate(parts)]
    for i in range(m):
        vc.eq('residual of its own part', fd[i] * fd[i], -2 * one[i], scale=1)
    for i in range(m, m + extra):
        vc.eq('nothing else written', fd[i], k0[i], tol=0)
    vc.eq('parameters unchanged', pars, keep, tol=0)
    P2 = vc.mat('P', (2, n))
    kp = P2.copy()
    la = p.get_lnprob_array(P2)
    pa = p.get_prob_array(P2)
    vc.true('one per point', len(la) == 2 and len(pa) == 2)
    for i in range(2):
        vc.eq('array form', la[i], value(cen, g, parts, P2[i]), scale=1)
        vc.eq('array form', pa[i], p.get_prob_scalar(P2[i]), scale=1)
    vc.eq('parameters unchanged', P2, kp, tol=0)
    vc.cover('end')


def outside(vc, f, *a):
    r = vc.call(f, *a)
    if r.ok:
        v = r.value
        return isinstance(v, float) and v == -INF
    return r.name == 'GMixRangeError'


@unit('C18', cases=[(k, h) for k in KINDS for h in ('raise', 'inf')], samples=6)
def support(vc, case):
    """outside the support of any part the whole is refused or minus infinity"""
    kind, how = case
    for nm in ['cen', 'g'] + SINGLE[kind] + ['F0', 'F1']:
        p, cen, g, parts, names = make(vc, kind, 2, bad=(nm, how))
        pars = vc.vec('p' + nm, 4 + len(parts))
        vc.true('log probability outside', outside(vc, p.get_lnprob_scalar, pars))
        r = vc.call(p.get_prob_scalar, pars)
        vc.true('probability outside', (r.ok and r.value == 0.0) or r.name == 'GMixRangeError')
        P2 = vc.mat('P' + nm, (1, 4 + len(parts)))
        r = vc.call(p.get_lnprob_array, P2)
        vc.true('array outside', r.name == 'GMixRangeError' or (r.ok and r.value[0] == -INF))
        if how == 'raise':
            fd = vc.np.zeros(4 + len(parts))
            vc.true('residuals refused', vc.call(p.fill_fdiff, pars, fd).name == 'GMixRangeError')
    vc.cover('end')


@unit('C18', cases=[(k, n) for k in KINDS for n in ('one', 1, 2)], samples=20)
def samples(vc, case):
    kind, n = case
    for nband in (1, 2):
        p, cen, g, parts, names = make(vc, kind, nband, listed=nband > 1)
        s = p.sample() if n == 'one' else p.sample(n)
        m = 4 + len(parts)
        num = 1 if n == 'one' else n
        if n == 'one':
            vc.true('shape', s.shape == (m,))
            s = s.reshape((1, m))
        else:
            vc.true('shape', s.shape == (n, m))
        for q in [cen, cen.other] + parts:
            vc.true('drawn once', len(q.draws) == 1)
        cols = [cen.draws[0], cen.other.draws[0], g.draws[0], g.draws[1]] + [q.draws[0] for q in parts]
        for j, c in enumerate(cols):
            for i in range(num):
                vc.eq('draw in its own place', s[i, j], c[i] if hasattr(c, '__len__') else c, tol=1e-14)
    vc.cover('end')


@unit('C18', cases=KINDS, samples=6)
def bounds(vc, kind):
    """bounds are those of the parts, in parameter order"""
    singles = SINGLE[kind]
    for nband in (1, 2):
        names = singles + ['F%d' % i for i in range(nband)]
        for sel in [()] + [(x,) for x in names] + [tuple(names)]:
            p, cen, g, parts, _ = make(vc, kind, nband, bounds=sel)
            if not sel:
                vc.true('none', p.bounds is None)
                continue
            vc.true('one pair per parameter', len(p.bounds) == 4 + len(parts))
            for i in range(4):
                vc.true('centre and shape are free', tuple(p.bounds[i]) == (None, None))
            for i, nm in enumerate(names):
                want = (float(i), 10.0 + i) if nm in sel else (None, None)
                vc.true('bounds of the part', tuple(p.bounds[4 + i]) == want)
    vc.cover('end')


# -------------------------------------------------------------- coelliptical
def coellip(vc, n, bad=(None, None), bT=None, bF=None):
    b = lambda nm: (bad[1] if bad[0] == nm else None)
    cen = Cen(vc, 'cen', bad=b('cen'), k=1)
    g = Shape(vc, 'g', bad=b('g'), k=2)
    T = Part1(vc, 'T', bad=b('T'), bounds=bT, k=6)
    F = Part1(vc, 'F', bad=b('F'), bounds=bF, k=7)
    return J().PriorCoellipSame(n, cen, g, T, F), cen, g, T, F


@unit('C18', cases=[1, 2, 3], samples=30, bound='up to 3 components')
def coellip_density(vc, n):
    p, cen, g, T, F = coellip(vc, n)
    parts = [T] * n + [F] * n
    m = 4 + 2 * n
    pars = vc.vec('p', m)
    keep = pars.copy()
    ln = p.get_lnprob_scalar(pars)
    vc.eq('sum of the parts', ln, value(cen, g, parts, pars), scale=1)
    fd = vc.vec('fd', m + 1)
    k0 = fd.copy()
    num = p.fill_fdiff(pars, fd)
    vc.true('one residual per component', num == m - 1)
    one = [cen.f(pars[0]), cen.other.f(pars[1]), g.f(pars[2], pars[3])] + [q.f(pars[4 + i]) for i, q in enumerate(parts)]
    for i in range(num):
        vc.eq('residual of its own part', fd[i] * fd[i], -2 * one[i], scale=1)
    for i in range(num, m + 1):
        vc.eq('nothing else written', fd[i], k0[i], tol=0)
    P2 = vc.mat('P', (2, m))
    la = p.get_lnprob_array(P2)
    for i in range(2):
        vc.eq('array form', la[i], value(cen, g, parts, P2[i]), scale=1)
    vc.eq('parameters unchanged', pars, keep, tol=0)
    for bad in (m - 1, m + 1):
        q = vc.vec('q%d' % bad, bad)
        vc.true('wrong size refused', vc.call(p.get_lnprob_scalar, q).name == 'ValueError')
        vc.true('wrong size refused', vc.call(p.fill_fdiff, q, fd).name == 'ValueError')
    vc.cover('end')


@unit('C18', cases=[(a, b) for a in (1, 3) for b in ('one', 2)], samples=20, bound='up to 3 components')
def coellip_samples(vc, case):
    n, num = case
    p, cen, g, T, F = coellip(vc, n)
    s = p.sample() if num == 'one' else p.sample(num)
    m = 4 + 2 * n
    if num == 'one':
        vc.true('shape', s.shape == (m,))
        s = s.reshape((1, m))
    else:
        vc.true('shape', s.shape == (num, m))
    vc.true('one draw each', len(T.draws) == n and len(F.draws) == n)
    cols = [cen.draws[0], cen.other.draws[0], g.draws[0], g.draws[1]] + T.draws + F.draws
    for j, c in enumerate(cols):
        for i in range(s.shape[0]):
            vc.eq('draw in its own place', s[i, j], c[i] if hasattr(c, '__len__') else c, tol=1e-14)
    vc.cover('end')


@unit('C18', cases=['raise', 'inf'], samples=6, bound='2 components')
def coellip_support(vc, how):
    for nm in ('cen', 'g', 'T', 'F'):
        p, cen, g, T, F = coellip(vc, 2, bad=(nm, how))
        pars = vc.vec('p' + nm, 8)
        vc.true('log probability outside', outside(vc, p.get_lnprob_scalar, pars))
        r = vc.call(p.get_lnprob_array, vc.mat('P' + nm, (1, 8)))
        vc.true('array outside', r.name == 'GMixRangeError' or (r.ok and r.value[0] == -INF))
    vc.cover('end')


@unit('C18', cases=[1, 3], samples=6, bound='up to 3 components')
def coellip_bounds(vc, n):
    p = coellip(vc, n)[0]
    vc.true('none', p.bounds is None)
    for bT, bF in (((0.0, 1.0), None), (None, (2.0, 3.0)), ((0.0, 1.0), (2.0, 3.0))):
        p = coellip(vc, n, bT=bT, bF=bF)[0]
        vc.true('one pair per parameter', len(p.bounds) == 4 + 2 * n)
        want = [(None, None)] * 4 + [bT or (None, None)] * n + [bF or (None, None)] * n
        for a, b in zip(p.bounds, want):
            vc.true('bounds of the part', isinstance(a, tuple) and a == b)
    vc.true('one band only', vc.call(J().PriorCoellipSame, n, Cen(vc, 'c'), Shape(vc, 's'), Part1(vc, 'T'),
                                     [Part1(vc, 'A'), Part1(vc, 'B')]).name == 'ValueError')
    vc.cover('end')


# ------------------------------------------------- the real parts, put together
@unit('C18', cases=KINDS, samples=25, budget=120)
def real_parts(vc, kind):
    """with the real priors: support and agreement of the forms"""
    import ngmix.priors as P
    rng = vc.rng('rng')
    w = [vc.real('w%d' % i, gen=lambda r: r.uniform(0.3, 0.9), lo=0.01) for i in range(8)]
    cen = P.CenPrior(w[0] - 0.5, 0.1, w[0], w[1], rng=rng)
    g = P.GPriorBA(w[2], rng=rng)
    names = SINGLE[kind]
    mk = [P.LogNormal(w[3], w[4], rng=rng), P.FlatPrior(-1.0, 1.0, rng=rng), P.Normal(0.5, w[5], rng=rng)]
    parts = mk[:len(names)] + [P.TruncatedGaussian(w[6], w[7], 0.0, 3.0, rng=rng), P.FlatPrior(-2.0, 2.0, rng=rng)]
    sup = [0.0, -1.0, None][:len(names)] + [0.0, -2.0]
    sup2 = [None, 1.0, None][:len(names)] + [3.0, 2.0]
    m = J()
    cls = dict(simple=m.PriorSimpleSep, galsim=m.PriorGalsimSimpleSep, bd=m.PriorBDSep,
               bdf=m.PriorBDFSep, spergel=m.PriorSpergelSep)[kind]
    p = cls(cen_prior=cen, g_prior=g, F_prior=parts[len(names):],
            **dict(zip([x + '_prior' for x in names], parts)))
    n = 4 + len(parts)
    pars = vc.vec('p', n, gen=lambda r: r.choice([0.5, r.uniform(-0.2, 1.1), r.gauss(0.3, 0.6)]))
    ins = vc.case(pars[2] * pars[2] + pars[3] * pars[3] < 1)
    for i, (a, b) in enumerate(zip(sup, sup2)):
        x = pars[4 + i]
        if not vc.symbolic:
            for e in (a, b):
                if e is not None:
                    vc.assume(abs(x - e) > 1e-9)
        if a is not None and ins:
            ins = vc.case(x > a) if a == 0.0 and i == 0 else vc.case(x >= a)
        if b is not None and ins:
            ins = vc.case(x <= b)
    fd = vc.np.zeros(n)
    r = vc.call(p.get_lnprob_scalar, pars)
    f = vc.call(p.fill_fdiff, pars, fd)
    a = vc.call(p.get_lnprob_array, pars.reshape((1, n)))
    if not ins:
        vc.true('outside', (not r.ok and r.name == 'GMixRangeError') or r.value == -INF)
        vc.true('outside', (not f.ok and f.name == 'GMixRangeError'))
        vc.true('outside', (not a.ok and a.name == 'GMixRangeError') or a.value[0] == -INF)
        return
    vc.true('evaluated', r.ok and f.ok and a.ok)
    vc.eq('array form', a.value[0], r.value, scale=1)
    s = 0.0
    for i in range(n - 1):
        s = s + fd[i] * fd[i]
    vc.eq('half the squared residuals', -0.5 * s, r.value, scale=1, tol=1e-5)
    vc.cover('end')
